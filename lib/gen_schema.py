"""Random protocol files: used as further inputs of the bounded stand-ins (and, in the thorough tier, of the proof)."""
import random

PR = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"]


def random_schema(seed, size=10):
    r = random.Random(seed)
    n = [0]

    def name(p):
        n[0] += 1
        return "%s%s" % (r.choice([p, p + "Thing", p + "Z"]), "ABCDEFGHIJ"[n[0] % 10] * (1 + n[0] // 10))

    out = []
    top, groups = [], []   # declared entity names visible from the root

    def ty(local):
        k = r.random()
        pool = top + local
        if k < .6 or not pool:
            return r.choice(PR)
        return r.choice(pool)

    def struct(ind, local):
        nm = name("St")
        if r.random() < .12:
            out.append("%sstruct %s {}" % (ind, nm))
            return nm
        out.append("%sstruct %s {" % (ind, nm))
        for k in range(r.randint(1, 7)):
            out.append("%s    %s%s f%d%s;" % (ind, ty(local), "[]" if r.random() < .3 else "", k, "?" if r.random() < .35 else ""))
        out.append("%s}" % ind)
        return nm

    def enum(ind, local):
        nm = name("En")
        out.append("%senum %s {" % (ind, nm))
        for k in range(r.randint(1, 8)):
            if r.random() < .3:
                out.append("%s    V%d;" % (ind, k))
            else:
                out.append("%s    %s%s V%d;" % (ind, ty(local), "[]" if r.random() < .3 else "", k))
        out.append("%s}" % ind)
        return nm

    def group(ind, depth):
        nm = name("Gr")
        out.append("%sgroup %s {" % (ind, nm))
        local, full = [], []
        for _ in range(r.randint(1, 4)):
            if depth < 2 and r.random() < .3:
                sub, inner = group(ind + "    ", depth + 1)
                local += ["%s.%s" % (sub, x) for x in inner]
                full += ["%s.%s" % (sub, x) for x in inner]
            else:
                x = (struct if r.random() < .6 else enum)(ind + "    ", local)
                local.append(x)
                full.append(x)
        out.append("%s}" % ind)
        return nm, full

    for _ in range(size):
        k = r.random()
        if k < .5:
            top.append(struct("", []))
        elif k < .75:
            top.append(enum("", []))
        else:
            g, inner = group("", 0)
            top += ["%s.%s" % (g, x) for x in inner]
    return "\n".join(out) + "\n"


def many_schema():
    """identifiers, variant numbers and field counts beyond one byte"""
    o = ["struct Wide {"] + ["    %s w%d%s;" % (PR[k % 12], k, "?" if k % 5 == 0 else "") for k in range(270)] + ["}"]
    o += ["enum Long {"] + ["    %s V%d;" % (PR[k % 12], k) if k % 3 else "    V%d;" % k for k in range(270)] + ["}"]
    o += ["struct Last {", "    Long[] longs;", "    Long one?;", "    Long two;", "    u8[] raw;", "}"]
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    import sys
    print(many_schema() if sys.argv[1] == "many" else random_schema(int(sys.argv[1])))
