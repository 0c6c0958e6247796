"""C01-C03: the complete space of Tenhou meld codes and of described calls."""
import impl
from core import Outcome, check
from rules import all_codes, decode, face, name, isred

TECH = "exhaustive enumeration of the finite space of meld codes and call descriptions on the real code, against a reference decoder"
FAMS = ("chi", "pon", "kakan", "minkan", "ankan")


def naki():
    from MahjongAI.draw import Naki
    return Naki


def attempt(f, *a):
    try:
        return f(*a), None
    except Exception as ex:
        return None, "%s: %s" % (type(ex).__name__, ex)


class Bad(list):
    def add(self, ident, msg, **kw):
        if len(self) < 20:
            self.append(dict(ident=ident, message=msg, replay=kw))


@check("C01", "exploration", TECH)
def C01(tier, seed):
    Naki = naki()
    bad, n = Bad(), 0
    codes = all_codes()
    fams = {}
    for code in codes:
        c = decode(code)
        fams[c.fam] = fams.get(c.fam, 0) + 1
        m, err = attempt(Naki, code)
        if err:
            bad.add("%d" % code, "Naki(%d) fails: %s" % (code, err), code=code)
            continue
        for obj in (m, Naki(code, clean=False)):
            n += 1
            kinds = [f for f in FAMS if getattr(obj, "is_" + f)()]
            if kinds != [c.fam]:
                bad.add("%d" % code, "code %d (%r) is classified as %r" % (code, c, kinds), code=code)
                continue
            if int(obj.naki_code) != code:
                bad.add("%d" % code, "naki_code of code %d is %d" % (code, obj.naki_code), code=code)
            if c.fam != "kakan" and int(obj.from_who()) != c.rel:
                bad.add("%d" % code, "code %d (%r) is called from %d" % (code, c, obj.from_who()), code=code)
            if c.fam == "kakan" and int(obj.from_who()) != code & 3:
                bad.add("%d" % code, "code %d (%r): the pon was called from %d" % (code, c, obj.from_who()), code=code)
            got, err = attempt(obj.get_exposed)
            exp = (sorted(c.hand), c.taken)
            if err or (sorted(map(int, got[0])), None if got[1] is None else int(got[1])) != exp:
                bad.add("%d" % code, "code %d (%r): exposed and acquired tiles are %r, expected %r" % (code, c, err or got, exp), code=code)
            pat, err = attempt(getattr(obj, "pattern_" + c.fam))
            if err:
                bad.add("%d" % code, "code %d (%r): %s" % (code, c, err), code=code)
                continue
            color, number, which, red, ex2, acq2 = pat
            k = c.kind
            if (int(color), int(number)) != (k // 9, k % 9):
                bad.add("%d" % code, "code %d (%r): suit and number are %r" % (code, c, (color, number)), code=code)
            if c.fam in ("chi", "pon") and int(which) != c.tiles.index(c.taken):
                bad.add("%d" % code, "code %d (%r): the taken tile is at %r" % (code, c, which), code=code)
            if c.fam == "minkan" and int(which) != c.taken % 4:
                bad.add("%d" % code, "code %d (%r): the taken tile is at %r" % (code, c, which), code=code)
            if bool(red) != any(map(isred, c.tiles)):
                bad.add("%d" % code, "code %d (%r): red-five flag is %r" % (code, c, red), code=code)
            if (sorted(map(int, ex2)), None if acq2 is None else int(acq2)) != exp:
                bad.add("%d" % code, "code %d (%r): decoded tiles are %r, expected %r" % (code, c, (ex2, acq2), exp), code=code)
    # decoding again in another order gives the same
    for code in reversed(codes):
        n += 1
        got, err = attempt(lambda: Naki(code).get_exposed())
        c = decode(code)
        if err or sorted(map(int, got[0])) != sorted(c.hand):
            bad.add("%d" % code, "code %d decoded a second time: %r" % (code, err or got), code=code)
    return Outcome(dict(evaluations=n, distinct_nontrivial=len(codes), rule="every 16-bit code of the five meld layouts (two objects per code, then all again in reverse order); each code is a distinct call",
                        per_family=fams, exhaustive=True, samples=[repr(decode(codes[i])) for i in (5, 3000, 5000, -1)]), bad,
                   ["the layout in mc/rules.py is the published Tenhou meld format"])


def described():
    """(constructor, args, key of the call it describes)"""
    for color in range(3):
        for number in range(7):
            tiles = [9 * color + number + i for i in range(3)]
            for which in range(3):
                for red in (False, True):
                    if red and not any(t % 9 == 4 for t in tiles):
                        continue
                    f = [34 + color if red and t % 9 == 4 else t for t in tiles]
                    taken = f.pop(which)
                    yield "from_chi_info", (color, number, which, red), ("chi", 3, tuple(sorted(f)), taken)
    for tile in range(34):
        five = tile < 27 and tile % 9 == 4
        r = 34 + tile // 9
        for frm in (1, 2, 3):
            yield "from_pon_info", (tile, 0, False, frm), ("pon", frm, (tile, tile), tile)
            if five:
                yield "from_pon_info", (tile, 1, True, frm), ("pon", frm, (tile, r), tile)
                yield "from_pon_info", (tile, 0, True, frm), ("pon", frm, (tile, tile), r)
                yield "from_minkan_info", (tile, frm, 0), ("minkan", frm, (tile, tile, tile), r)
                yield "from_minkan_info", (tile, frm, 1), ("minkan", frm, (tile, tile, r), tile)
            else:
                yield "from_minkan_info", (tile, frm, 1), ("minkan", frm, (tile, tile, tile), tile)
        if five:
            yield "from_kakan_info", (tile, 1), ("kakan", (tile,), tile)
            yield "from_kakan_info", (tile, 0), ("kakan", (r,), tile)
        else:
            yield "from_kakan_info", (tile, 0), ("kakan", (tile,), tile)
        yield "from_ankan_info", (tile,), ("ankan", tile)


@check("C02", "exploration", TECH)
def C02(tier, seed):
    Naki = naki()
    bad, n = Bad(), 0
    canon, keys = {}, {}
    for code in all_codes():
        key = decode(code).key()
        n += 1
        v, err = attempt(lambda: int(Naki(code).convenient_naki_code))
        if err:
            bad.add("%d" % code, "Naki(%d): %s" % (code, err), code=code)
            continue
        if canon.setdefault(key, (v, code))[0] != v:
            bad.add("%d" % code, "codes %d and %d are the same call %r but have canonical codes %d and %d" % (
                canon[key][1], code, key, canon[key][0], v), codes=[canon[key][1], code])
        if keys.setdefault(v, (key, code))[0] != key:
            bad.add("%d" % code, "codes %d (%r) and %d (%r) are different calls with canonical code %d" % (
                keys[v][1], keys[v][0], code, key, v), codes=[keys[v][1], code])
    seen = set()
    for ctor, args, key in described():
        n += 1
        m, err = attempt(getattr(Naki, ctor), *args)
        if err:
            bad.add("%s%r" % (ctor, args), "%s%r: %s" % (ctor, args, err))
            continue
        seen.add(key)
        v = int(m.convenient_naki_code)
        if key in canon and canon[key][0] != v:
            bad.add("%s%r" % (ctor, args), "%s%r (%r) has canonical code %d, Tenhou's code %d for that call has %d" % (
                ctor, args, key, v, canon[key][1], canon[key][0]), args=args)
        if decode(int(m.naki_code)).key() != key:
            bad.add("%s%r" % (ctor, args), "%s%r decodes to %r, not %r" % (ctor, args, decode(int(m.naki_code)), key), args=args)
        # a description is the same call as itself read back from its code
        v2, err = attempt(lambda: int(Naki(int(m.naki_code)).convenient_naki_code))
        if err or v2 != v:
            bad.add("%s%r" % (ctor, args), "%s%r: canonical code %d, read back from its own code %r" % (ctor, args, v, err or v2), args=args)
    missing = set(canon) - seen
    assert not missing, missing
    return Outcome(dict(evaluations=n, distinct_nontrivial=len(canon), rule="every Tenhou code and every constructor argument; classes are the distinct calls, all pairs compared through two maps",
                        calls=len(canon), descriptions=len(seen), exhaustive=True, samples=[str(x) for x in list(canon.items())[:4]]), bad,
                   ["an added kan is identified by the tile added (which tells where the red five sits); the seat its pon came from belongs to the pon"])


@check("C03", "exploration", TECH)
def C03(tier, seed):
    Naki = naki()
    bad, n = Bad(), 0
    slot = {}

    def note(key, obj, what):
        during = key[0] in ("ankan", "kakan")
        v, err = attempt(obj.get_during_turn_filter_idx if during else obj.get_post_turn_filter_idx)
        if err:
            bad.add(what, "%s has no slot: %s" % (what, err))
            return
        v = int(v)
        lo, hi = (3, 71) if during else (2, 154)
        if not lo <= v < hi:
            bad.add(what, "%s has slot %d, outside %d..%d" % (what, v, lo, hi - 1))
        if slot.setdefault(key, (v, what))[0] != v:
            bad.add(what, "%s has slot %d but %s, the same call, has %d" % (what, v, slot[key][1], slot[key][0]))

    for code in all_codes():
        n += 1
        c = decode(code)
        note(c.key(), Naki(code), "%s code %d" % (c, code))
    for ctor, args, key in described():
        n += 1
        note(key, getattr(Naki, ctor)(*args), "%s%r" % (ctor, args))

    def tiles(key):
        """faces that leave the hand"""
        if key[0] == "ankan":
            k = key[1]
            return [k] * 3 + [34 + k // 9] if k < 27 and k % 9 == 4 else [k] * 4
        if key[0] == "kakan":
            return list(key[1])
        return list(key[2])

    def together(a, b):
        """may one player be offered both at once?"""
        if a[0] in ("ankan", "kakan"):
            return a[-1] != b[-1]
        if a[1] != b[1] or a[3] != b[3]:
            return False
        need = {}
        for k in (a, b):
            cnt = {}
            for t in tiles(k):
                cnt[t] = cnt.get(t, 0) + 1
            for t, v in cnt.items():
                need[t] = max(need.get(t, 0), v)
        need[a[3]] = need.get(a[3], 0) + 1
        return all(v <= (1 if t >= 34 else 3 if t < 27 and t % 9 == 4 else 4) for t, v in need.items())

    def kinds(key):
        plain = lambda t: (t - 34) * 9 + 4 if t >= 34 else t
        if key[0] in ("ankan", "kakan"):
            return (key[-1],)
        return tuple(sorted([plain(t) for t in key[2]] + [plain(key[3])]))

    pairs = conflicts = 0
    ks = list(slot)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if (a[0] in ("ankan", "kakan")) != (b[0] in ("ankan", "kakan")):
                continue
            pairs += 1
            t = together(a, b)
            conflicts += t
            if slot[a][0] != slot[b][0]:
                continue
            if t:
                bad.add("%r %r" % (a, b), "%r and %r can be offered together and share slot %d" % (a, b, slot[a][0]))
            elif a[0] != b[0] or kinds(a) != kinds(b):
                bad.add("%r %r" % (a, b), "%r and %r share slot %d" % (a, b, slot[a][0]))
    return Outcome(dict(evaluations=n + pairs, distinct_nontrivial=conflicts, rule="slot of every code and description; every pair of calls of one head; non-trivial pairs are those one player can be offered together",
                        calls=len(ks), pairs=pairs, exhaustive=True, samples=[str((k, slot[k][0])) for k in ks[:3] + ks[-2:]]), bad)
