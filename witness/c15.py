"""C15: W3C timestamps."""
import calendar
import re
from fractions import Fraction

from common import source_constants, text, unicode_dec_digits

RULE = "all boundary dates/times/offsets, mutated and near-miss strings, timestamps over years 1..9999 with microseconds"
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
KNOWN = "str_to_datetime adds the offset to the local time instead of subtracting it, e.g. 2000-01-01T00:00:00+01:00"


def days(y, m, d):
    """Days since 1970-01-01 (proleptic Gregorian), written independently of the library."""
    n = 0
    y2 = y - 1
    n = y2 * 365 + y2 // 4 - y2 // 100 + y2 // 400
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    for i in range(m - 1):
        n += MDAYS[i] + (1 if i == 1 and leap else 0)
    return n + d - 1 - 719162


def spec(s):
    """(seconds as local time, offset, fraction) or None"""
    m = re.fullmatch(r"([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?(Z|[+-][0-9]{2}:[0-9]{2})?)?)?)?", s)
    if not m:
        return None
    y, mo, d = int(m[1]), int(m[2] or 1), int(m[3] or 1)
    hh, mi, ss = int(m[4] or 0), int(m[5] or 0), int(m[6] or 0)
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if y < 1 or not 1 <= mo <= 12 or not 1 <= d <= MDAYS[mo - 1] + (1 if mo == 2 and leap else 0) or hh > 23 or mi > 59 or ss > 59:
        return None
    off = 0
    if m[8] and m[8] != "Z":
        oh, om = int(m[8][1:3]), int(m[8][4:6])
        if oh > 23 or om > 59:
            return None
        off = (oh * 3600 + om * 60) * (-1 if m[8][0] == "-" else 1)
    return days(y, mo, d) * 86400 + hh * 3600 + mi * 60 + ss, off, float(m[7] or 0)


def check(w, s):
    from ocfl.w3c_datetime import str_to_datetime
    w.case(("s", s))
    e = spec(s)
    try:
        got = str_to_datetime(s)
    except ValueError:
        got = None
    except Exception as x:
        w.fail("str_to_datetime(%r) raised %r" % (s, x), {"s": s})
        return
    if e is None or got is None:
        w.check((e is None) == (got is None), "str_to_datetime(%r) gave %r, spec says %r" % (s, got, e), {"s": s})
        return
    if not hasattr(w, "added"):             # known finding: the offset is added, for every string
        w.added = 1 if abs(str_to_datetime("2000-01-01T00:00:00+01:00") - str_to_datetime("2000-01-01T00:00:00Z") - 3600) < 1e-6 else -1
    utc = e[0] - e[1] + e[2]
    if abs(got - (e[0] + w.added * e[1] + e[2])) > 1e-6:
        w.fail("str_to_datetime(%r) gave %r, not %r" % (s, got, utc), {"s": s})


def check_round(w, us):
    from ocfl.w3c_datetime import str_to_datetime, datetime_to_str
    w.case(("us", us))
    for t in ([us // 10 ** 6, us / 10 ** 6] if us % 10 ** 6 == 0 else [us / 10 ** 6]):
        try:
            st = datetime_to_str(t)
            back = str_to_datetime(st)
        except Exception as x:
            w.fail("format/parse of %r raised %r" % (t, x), {"us": us})
            return
        if not w.check(st.endswith("Z") and abs(back - t) < 2e-6 * max(1, abs(t) / 1e9), "format/parse of %r gave %r, %r" % (t, st, back), {"us": us}):
            return
        e = spec(st)
        w.check(e is not None and abs(e[0] + e[2] - t) < 2e-6 * max(1, abs(t) / 1e9), "datetime_to_str(%r) gave %r" % (t, st), {"us": us})
        if t >= 0:
            s2 = datetime_to_str(t, no_fractions=True)
            w.check(spec(s2) is not None and spec(s2)[0] == int(t) and "." not in s2, "datetime_to_str(%r, no_fractions) gave %r" % (t, s2), {"us": us})


def run(w):
    rng = w.rng
    for y in ("0000", "0001", "1600", "1900", "1969", "1970", "1999", "2000", "2023", "2024", "2100", "9999"):
        check(w, y)
        for mo in ("00", "01", "02", "06", "12", "13"):
            check(w, y + "-" + mo)
            for d in ("00", "01", "28", "29", "30", "31", "32"):
                check(w, "%s-%s-%s" % (y, mo, d))
                for t in ("", "T00:00:00Z", "T23:59:59Z", "T24:00:00Z", "T00:00Z", "T12:34:56.789Z"):
                    check(w, "%s-%s-%s%s" % (y, mo, d, t))
    for d in ("2000-01-01", "2024-02-29", "1970-01-01", "1969-12-31"):
        for t in ("T00:00", "T23:59", "T24:00", "T12:60", "T12:34", "T00:00:00", "T23:59:59", "T23:59:60", "T23:60:00", "T12:34:56", "T12:34:56.", "T12:34:56.0", "T12:34:56.5",
                  "T12:34:56.123456", "T12:34:56.1234567890123", "T12:34.5", "T12", "T1:2:3", "t12:34:56", " 12:34:56", "T12:34:56,5", "T12:34:5", "T123456"):
            for z in ("", "Z", "z", "+00:00", "-00:00", "+01:00", "-01:00", "+23:59", "-23:59", "+24:00", "-24:00", "+12:60", "+05:30", "-05:30", "+0530", "+05", " Z", "Z ", "ZZ", "+1:00", "UTC",
                      "+00:60", "\u221205:00", "+05:30Z", "Z+05:30", ".5Z", "\n", "Z\n"):
                check(w, d + t + z)
    for s in ["", " ", "Z", "T", "now", "2000-1-1", "20000101", "00000", "12345-01-01", "2000-01-01T", "2000-01-01Z", "2000-01Z", "2000Z", "-2000-01-01", "+2000-01-01", "2000/01/01",
              "2000-W01-1", "2000-001", "2000-01-01T00:00:00Z2000-01-01T00:00:00Z", "2000\n", "\n2000", "2000-01-01\n", "2000-01-01T10:10:10.5\n", "2000-01-01T10:10:10.5Z\n"]:
        check(w, s)
    strs, _ = source_constants(["w3c_datetime.py"])
    for s in strs:
        check(w, s)
    for us in [0, 1, 999999, 10 ** 6, 10 ** 6 - 1, 86400 * 10 ** 6, -1, -10 ** 6, -5 * 10 ** 5, 2 ** 31 * 10 ** 6, 4102444799 * 10 ** 6 + 999999, 10 ** 9 * 10 ** 6 + 500000]:
        check_round(w, us)
    k = 0
    while w.more() and k < 60000:
        k += 1
        r = rng.random()
        base = "%04d-%02d-%02d" % (rng.choice([rng.randint(0, 9999), rng.randint(1960, 2040)]), rng.randint(0, 13), rng.randint(0, 32))
        s = base[:rng.choice([4, 7, 10, 10, 10, 10])]
        if len(s) == 10 and rng.random() < 0.8:
            s += "T%02d:%02d" % (rng.randint(0, 25), rng.randint(0, 61))
            if rng.random() < 0.8:
                s += ":%02d" % rng.randint(0, 61)
                if rng.random() < 0.5:
                    s += "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 8)))
            s += rng.choice(["", "Z", "Z", "%s%02d:%02d" % (rng.choice("+-"), rng.randint(0, 25), rng.randint(0, 61))])
        if r < 0.4:
            i = rng.randint(0, len(s))
            c = rng.choice(list("0123456789-+:.TZtz \n\r,/") + unicode_dec_digits())
            s = s[:i] + c + s[i + rng.randint(0, 1):]
        elif r < 0.45:
            s = text(rng)
        check(w, s)
        if k % 4 == 0:
            check_round(w, rng.choice([rng.randint(-2 * 10 ** 15, 4 * 10 ** 15), rng.randint(0, 10 ** 7), rng.randint(0, 4 * 10 ** 9) * 10 ** 6 + rng.choice([0, 1, 999999, 500000])]))


def replay(w, i):
    if "s" in i:
        check(w, i["s"])
    else:
        check_round(w, i["us"])


def hint(w, task, inputs):
    if isinstance(inputs.get("s"), str):
        check(w, inputs["s"])
