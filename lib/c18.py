"""C18: what a description says, however it is written (spec/LangText.tla)."""
import langtext, big, real
from langtext import Writer, description, record


def main(chk):
    rng = chk.rng
    n = 30000 if chk.thorough else 4000
    cases = []
    while len(cases) < n:
        g = description(rng)
        for _ in range(rng.choice([1, 1, 2])):
            w = Writer(rng, g)
            t = w.write()
            if len(t.encode('utf8')) <= 1500:
                cases.append(langtext.case(t, w.pats, 1))
    for _ in range(100 if chk.thorough else 12):
        w = Writer(rng, rng.choice([big.wide, big.wide, big.types])(rng, rng.choice([70, 140, 280]))[0])
        cases.append(langtext.case(w.write(), w.pats, 1))
    for g in real.load():                        # as it stands, and written in other ways
        for _ in range(10 if chk.thorough else 2):
            w = Writer(rng, g)
            cases.append(langtext.case(w.write(), w.pats, 1))
    chk.validate('core', 'LangTextTrace', cases, record=record, batch=2000)
    return chk.finish(rule='random descriptions written in random ways')
