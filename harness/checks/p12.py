from . import p11
LEVEL = "model_checking"
ASSUMPTIONS = ["reference gradients of harmonics written from the derivative of the closed form (harness/props/refs.py, float64)", "degrees up to 26; agreement within 1e6 ulp (float64) / 8e3 ulp (float32) of the largest value",
               "imaginary part of order 0 and the Nyquist order are not representable on the grid; degree 0 has no gradient"]


def check(ctx):
    scns = p11.generate(ctx, True) + p11.bigs(ctx, True)
    ctx.validate("T_P11", ctx.replay(scns, mod="p11"))
