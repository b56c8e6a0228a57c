"""The Python side of pbt.h: cases are functions of a sequence of bounded choices;
same command line, same replay files, same statistics."""
import argparse, faulthandler, json, mmap, struct, sys, time, traceback

MASK = (1 << 64) - 1
PROPS = {}


def prop(f):
    PROPS[f.__name__] = f
    return f


class Failure(Exception):
    pass


class Discard(Exception):
    pass


class Rng:
    def __init__(self, seed):
        self.s = seed & MASK

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return 0 if n <= 1 else self.next() % n


def fnv(s):
    h = 1469598103934665603
    for b in s.encode():
        h = ((h ^ b) * 1099511628211) & MASK
    return h


class Live:
    """The choices of the case being run, in a file that survives a crash."""
    CAP = 1 << 16

    def __init__(self, path):
        with open(path, "w+b") as f:
            f.truncate((self.CAP + 1) * 8)
            self.m = mmap.mmap(f.fileno(), (self.CAP + 1) * 8)
        self.n = 0

    def reset(self):
        self.n = 0
        self.m[0:8] = bytes(8)

    def push(self, v):
        if self.n < self.CAP:
            self.n += 1
            self.m[self.n * 8:self.n * 8 + 8] = struct.pack("<Q", v)
            self.m[0:8] = struct.pack("<Q", self.n)


class Ctx:
    """Everything drawn shrinks towards 0, the low end, the first alternative."""

    live = None

    def __init__(self, seed=None, choices=None, thorough=False):
        if self.live:
            self.live.reset()
        self.rng = Rng(seed or 0)
        self.src, self.pos, self.out = choices, 0, []
        self.text, self.labels, self.nt, self.thorough = [], set(), False, thorough

    def draw(self, n):
        if self.src is not None:
            v = self.src[self.pos] if self.pos < len(self.src) else 0
            v = min(v, n - 1) if n else v
            self.pos += 1
        else:
            v = self.rng.below(n) if n else self.rng.next()
        self.out.append(v)
        if self.live:
            self.live.push(v)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def coin(self, percent=50):
        return self.draw(100) >= 100 - percent

    def pick(self, l):
        return l[self.draw(len(l))]

    def weighted(self, w):
        r = self.draw(sum(w))
        for i, x in enumerate(w):
            if r < x:
                return i
            r -= x
        return 0

    def shuffle(self, l):
        """Shrinks to the order given."""
        l = list(l)
        for i in range(len(l) - 1):
            j = i + self.draw(len(l) - i)
            l[i], l[j] = l[j], l[i]
        return l

    echo = False

    def desc(self, s):
        self.text.append(s)
        if self.echo:  # a crash may follow
            print("CASE " * (len(self.text) == 1) + s.replace("\n", " "), end="", flush=True)

    def nontrivial(self, b=True):
        self.nt = self.nt or bool(b)

    def label(self, l):
        self.labels.add(l)

    def fail(self, msg):
        raise Failure(msg)

    def discard(self):
        raise Discard()


def run_one(p, c):
    try:
        p(c)
        return 0, ""
    except Failure as e:
        return 1, str(e)
    except Discard:
        return 2, ""
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%s" % (f.filename.split("/")[-1], f.name) for f in reversed(tb[-4:]))
        return 1, "exception %s: %s (%s)" % (type(e).__name__, e, where)


def shrink(p, choices, msg, desc, thorough, budget=25, tries=1500):
    end = time.time() + budget
    best = [list(choices), msg, desc]
    count = [0]

    def still(v):
        if count[0] >= tries or time.time() > end:
            return False
        count[0] += 1
        c = Ctx(choices=v, thorough=thorough)
        r, m = run_one(p, c)
        if r != 1:
            return False
        o = list(c.out)
        while o and o[-1] == 0:
            o.pop()
        best[:] = [o, m, "".join(c.text)]
        return True
    progress = True
    while progress and time.time() < end and count[0] < tries:
        progress = False
        n = max(1, len(best[0]) // 2)
        while n >= 1:
            at = 0
            while at + n <= len(best[0]) and time.time() < end:
                before = best[0]
                if still(best[0][:at] + best[0][at + n:]) and len(best[0]) < len(before):
                    progress = True
                else:
                    at += n
            n //= 2
        at = 0
        while at < len(best[0]) and time.time() < end:
            if best[0][at]:
                for v in (0, best[0][at] // 2, best[0][at] - 1):
                    if at < len(best[0]) and v < best[0][at] and still(best[0][:at] + [v] + best[0][at + 1:]):
                        progress = True
                        break
            at += 1
    return best


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--prop")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--cases", type=int, default=1000)
    a.add_argument("--secs", type=float, default=20)
    a.add_argument("--live")
    a.add_argument("--stats")
    a.add_argument("--out")
    a.add_argument("--replay")
    a.add_argument("--thorough", action="store_true")
    a.add_argument("--list", action="store_true")
    o = a.parse_args()
    if o.list:
        print("\n".join(PROPS))
        return 0
    if o.prop not in PROPS:
        print("no such property: %s" % o.prop)
        return 3
    p = PROPS[o.prop]
    if o.replay:
        ch = [int(x) for x in open(o.replay).read().split("\n") if x and not x.startswith("#")]
        faulthandler.enable()
        c = Ctx(choices=ch, thorough=o.thorough)
        c.echo = True
        r, m = run_one(p, c)
        print("")
        if r == 1:
            print("FAIL " + m.replace("\n", " "))
        return 1 if r == 1 else 0
    if o.live:
        Ctx.live = Live(o.live)
    t0 = time.time()
    seeder = Rng(o.seed * 0x2545F4914F6CDD1D + fnv(o.prop))
    st = {"evaluations": 0, "discards": 0, "nontrivial": 0, "status": 0, "message": "", "case": ""}
    labels, samples, distinct = {}, [], set()
    for i in range(o.cases):
        if time.time() - t0 > o.secs:
            break
        seed = seeder.next()
        c = Ctx(seed=seed, thorough=o.thorough)
        r, m = run_one(p, c)
        if r == 2:
            st["discards"] += 1
            continue
        st["evaluations"] += 1
        d = "".join(c.text)
        if c.nt:
            st["nontrivial"] += 1
            distinct.add(fnv(d))
            if len(samples) < 3 or (len(samples) < 6 and i % 97 == 0):
                samples.append(d[:600])
        for l in c.labels:
            labels[l] = labels.get(l, 0) + 1
        if r == 1:
            ch, m, d = shrink(p, c.out, m, d, o.thorough)
            st.update(status=1, message=m, case=d)
            if o.out:
                with open(o.out, "w") as f:
                    f.write("".join("%d\n" % x for x in ch))
            break
    st.update(secs=time.time() - t0, labels=labels, samples=samples, distinct=sorted(distinct))
    if o.stats:
        with open(o.stats, "w") as f:
            json.dump(st, f)
    return st["status"]


if __name__ == "__main__":
    sys.exit(main())
