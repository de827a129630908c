"""C04: node hook protocol (spec/Machine.tla)."""
import mach, small, big, real

record = mach.record


def main(chk):
    rng = chk.rng
    n = 12000 if chk.thorough else 1500
    cases = [mach.general(rng) for _ in range(n)]
    cases += [c for _, c in small.cases(rng, 6 if chk.thorough else 5, 8000 if chk.thorough else 400, opts=((1, 0), (1, 1)))]
    cases += [c for _, c in big.add(chk, rng)]
    cases += [c for _, c in real.add(chk, rng)]
    mach.validate(chk, cases)
    return chk.finish(rule='random parses with hooks')
