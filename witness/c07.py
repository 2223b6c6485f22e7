"""C07: created, built and updated objects."""
from objops import DO, gen_build, gen_create, gen_edit, gen_update, guard, replay

RULE = "random source trees (odd file names and contents), all settings, create, build of 1-10 versions, update and edit of generated objects; validated with digests checked and compared file by file with the source"


def run(w):
    rng = w.rng
    k = 0
    while w.more():
        k += 1
        inp = [gen_create, gen_build, gen_update, gen_edit][k % 4](rng)
        guard(w, inp, DO[inp["kind"]])
