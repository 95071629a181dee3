"""Write an object, read it back, compare with what was put in."""
from harness import rec, util


def roundtrip(env, key, shapes, flavour="lxml"):
    et = util.use(env, flavour)
    attrs, rich = env.pick("shape", shapes)
    r = rec.gen(env, key, "v", attrs, rich)
    obj = rec.make(r)
    text = obj.to_string()
    back = rec.cls_of(key).from_string(text)
    out = []
    rec.diff(back, r, key, out)
    util.report(env, "read back", out)
    if not rec.mixed(r):
        env.check(back == obj, f"equal: {key}")
