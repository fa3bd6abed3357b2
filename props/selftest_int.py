import random
META = {"bounds": {"quick": "", "thorough": ""}, "outside": "", "must_cover": []}
def tasks(tier):
    return [{"name": "s%d" % i, "seed": i} for i in range(300, 600)]
def gen(r, vs, d):
    if d == 0 or r.random() < .15:
        return r.choice(vs) if r.random() < .8 else r.randint(-40, 300)
    op = r.randrange(24)
    a = gen(r, vs, d - 1)
    if op == 0: return abs(a)
    if op == 1: return -a
    if op == 2: return ~a
    if op == 3: return a.bit_length()
    if op == 4: return a >> r.randint(0, 9)
    if op == 5: return a << r.randint(0, 9)
    if op == 6: return a // r.choice([-7, -1, 1, 3, 8, 10, 256])
    if op == 7: return a % r.choice([-7, -1, 1, 3, 8, 10, 256])
    if op == 8: return a ** r.randint(0, 2)
    if op == 9: return 2 ** abs(a % 12)
    if op == 10: return a.bit_count()
    if op == 11: return int(str(a)) if r.random() < .3 else a
    b = gen(r, vs, d - 1)
    if op == 12: return a + b
    if op == 13: return a - b
    if op == 14: return a * b
    if op == 15: return a & b
    if op == 16: return a | b
    if op == 17: return a ^ b
    if op == 18: return min(a, b)
    if op == 19: return max(a, b)
    if op == 20: return a // (abs(b) % 9 + 1)
    if op == 21: return a % (abs(b) % 9 + 1)
    if op == 22: return (a >> (abs(b) % 9))
    if op == 23: return 1 if a < b else (2 if a == b else 3)
def harness(cx, case):
    r = random.Random(case["seed"])
    x = cx.int("x", r.choice([-300, -5, 0, 0, 3]), r.choice([5, 255, 7000]))
    y = cx.int("y", r.choice([-20, 0, 1]), r.choice([5, 31, 255, 4294967295]))
    s = cx.str("s", 2, "0123456789")
    z = int(s)
    out = []
    for k in range(4):
        out.append(gen(r, [x, y, z, int(s[0])], 3))
    a = out[0] if -9999 < out[0] and out[0] < 70000 else 7
    k = r.randrange(6)
    t = ["%05d" % a, f"{a:x}", "%04x|%d" % (abs(a), a), f"{a:06b}", f"{a:<5}|{a:>6}|{a:03}", hex(a)][k]
    out.append(t)
    if k == 1:
        out.append(int(t, 16))
    if k == 2 and len(t) >= 6:
        out.append(int(t[0:2], 16) * 256 + int(t[2:4], 16))
    cx.observe(out)
