"""C08: adding a version leaves earlier versions alone."""
from objops import DO, gen_edit, gen_update, guard, replay

RULE = "generated valid objects (mixed algorithms, fixity, padded names up to overflow) updated with all settings, and objects with one defect of six kinds whose update has to be refused without writing"


def run(w):
    rng = w.rng
    k = 0
    while w.more():
        k += 1
        inp = gen_edit(rng) if k % 4 == 3 else gen_update(rng, broken=k % 4 == 1)
        guard(w, inp, DO[inp["kind"]])
