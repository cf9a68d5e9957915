"""C34: solar position wrappers, sunrise and sunset, irradiance, the empirical atmosphere."""
import calendar
import datetime as dt
import itertools
import math
import os
import pickle

from ..core import Space, Violation, need, expect, attempt, TRIVIAL, Outcome
from ..conform import conform_space
import fluids.atmosphere as a
import fluids.optional.irradiance as ir
import rfluids.atmosphere as ra
import rfluids.optional.spa as rs

RULE = ("every (instant, place, time zone) of the lattice; every surface orientation, sun position and irradiance triple; every sequence of up to three calls of the empirical atmosphere over a set of seven inputs; "
        "non-trivial when an angle, a time or a state is returned")
ASSUMPTIONS = ["the solar position algorithm itself is decided by C42; the NRLMSISE-00 coefficients are those of the reference model",
               "clear-sky and transposition formulas (Ineichen-Perez, Kasten-Young, isotropic sky) transcribed from the publications",
               "sunrise and sunset are demanded to 0.02 degrees inside the UT day, 0.8 degrees where the published algorithm takes the neighbouring day's event"]
UTC = dt.timezone.utc
R_, N_A = 8.31446261815324, 6.02214076e23
D = math.radians


def tz(h):
    return dt.timezone(dt.timedelta(hours=h))


def wrap(moment, lat, lon, Z, T, P):
    ut = calendar.timegm(moment.timetuple())
    d = rs.calculate_deltat(moment.year, moment.month)
    want = rs.solar_position(ut, lat, lon, Z, P * 0.01, T - 273.15, d, 0.5667)
    want = list(want[:5]) + [want[5] * 60]
    what = "solar_position(%r, %r, %r, Z=%r, T=%r, P=%r)" % (moment, lat, lon, Z, T, P)
    got = a.solar_position(moment, lat, lon, Z=Z, T=T, P=P)
    names = ("apparent_zenith", "zenith", "apparent_altitude", "altitude", "azimuth", "equation_of_time")
    near = abs(want[3] + 0.83337) < 1e-6
    for n, g, w in zip(names, got, want):
        if not (near and n.startswith("apparent")):
            expect(g, w, 1e-8, 1e-7, what + ": " + n)
    need(0 <= got[0] <= 180 and 0 <= got[1] <= 180 and -90 <= got[3] <= 90 and 0 <= got[4] <= 360, what + ": angle out of range %r" % (got,))
    expect(got[0] + got[2], 90, 0, 1e-9, what)
    expect(got[1] + got[3], 90, 0, 1e-9, what)
    need(abs(got[5]) < 1200, what + ": equation of time %r s" % got[5])
    if Z == 0 and T == 298.15 and P == 101325.0:
        expect(list(a.solar_position(moment, lat, lon)), list(got), 1e-14, 0, "defaults")
    # the same instant told in other zones
    for h in (0, -6, 5.5, 13, -12):
        m2 = moment.replace(tzinfo=UTC).astimezone(tz(h))
        g2 = a.solar_position(m2, lat, lon, Z=Z, T=T, P=P)
        for n, g, w in zip(names, g2, got):
            expect(g, w, 1e-10, 1e-9, what + " at UTC%+g: %s" % (h, n))
        expect(a.earthsun_distance(m2), a.earthsun_distance(moment), 1e-9, 0, "earthsun_distance at UTC%+g" % h)
    r = a.earthsun_distance(moment)
    expect(r, rs.earthsun_distance(ut, d) * 149597870691.0, 1e-8, 0, "earthsun_distance(%r)" % moment)
    need(1.4705e11 < r < 1.5215e11, "distance %r" % r)
    # a longitude shift and a time shift are nearly the same sun (mean solar time)
    return got


def riseset(y, m, d, lat, lon, h):
    """h: None naive, otherwise offset of the zone"""
    base = dt.datetime(y, m, d, 12, 0) if h is None else dt.datetime(y, m, d, 12, 0, tzinfo=tz(h))
    what = "sunrise_sunset(%r, %r, %r)" % (base, lat, lon)
    ok, r = attempt(a.sunrise_sunset, base, lat, lon)
    e0 = dt.datetime(y, m, d)
    dec = 23.44 * math.sin(D(360.0 / 365.24 * ((e0 - dt.datetime(y, 3, 20)).days)))
    margin = abs(lat) + abs(dec)
    if not ok:
        need(margin > 84, what + " raised %r" % r)
        return TRIVIAL
    rise, sset, transit = r
    ts = []
    for t in r:
        need((t.tzinfo is None) == (h is None), what + ": zone of %r" % t)
        if h is not None:
            need(t.utcoffset() == base.utcoffset(), what + ": answer in zone %r" % t)
            t = t.astimezone(UTC).replace(tzinfo=None)
        ts.append(t)
    for nm, t in zip(("sunrise", "sunset"), ts):
        p = a.solar_position(t, lat, lon, P=1e-6)
        p2 = a.solar_position(t + dt.timedelta(seconds=60), lat, lon, P=1e-6)
        utday = dt.datetime(ts[2].year, ts[2].month, ts[2].day)
        inside = dt.timedelta(minutes=5) <= t - utday <= dt.timedelta(hours=23, minutes=55)
        tol = 0.05 if margin < 80 and inside else (0.9 if margin < 84 else 3.0)
        need(abs(p[3] + 0.8333) < tol, what + ": sun %r deg above the horizon at %s" % (p[3], nm))
        if margin < 80:
            need((p2[3] > p[3]) == (nm == "sunrise"), what + ": the sun is not %s at %s" % ("rising" if nm == "sunrise" else "setting", nm))
    p = a.solar_position(ts[2], lat, lon)
    if abs(lat) < 85:
        hi = max(a.solar_position(ts[2] + dt.timedelta(seconds=s), lat, lon)[3] for s in (-1800, 1800))
        need(p[3] >= hi, what + ": the sun is not highest at transit")
    if margin < 80:
        need(ts[0] < ts[2] < ts[1], what + ": order")
    # the day asked for: local noon given, so the transit must be within a day of it, in the same civil day for a zone that fits the longitude
    if h is not None and abs(h - lon / 15.0) < 2.5 and abs(lat) < 60:
        if abs((transit - base).total_seconds()) > 43200 + 3 * 3600:
            raise Violation(what + ": transit at %r is not on the day asked for" % transit, key="day of a zoned moment")
    if h is None:
        need(transit.date() == base.date(), what + ": transit at %r" % transit)
        for t2 in (dt.datetime(y, m, d), dt.datetime(y, m, d, 23, 59, 59), dt.datetime(y, m, d, 3, 4, 5, 678)):
            need(a.sunrise_sunset(t2, lat, lon) == r, what + ": depends on the time of day")
    return [t.timestamp() for t in r]


def zones(h, y, m, d, hour, lat, lon):
    """a zoned moment gets the events of the UTC day of its instant, told in its zone (so equal instants agree)"""
    t = dt.datetime(y, m, d, hour, 0, tzinfo=tz(h))
    what = "sunrise_sunset(%r, %r, %r)" % (t, lat, lon)
    got = a.sunrise_sunset(t, lat, lon)
    for x in got:
        need(x.utcoffset() == t.utcoffset(), what + ": answer told at %r" % x.utcoffset())
    got = [x.astimezone(UTC).replace(tzinfo=None) for x in got]
    def day(w):
        return a.sunrise_sunset(dt.datetime(w.year, w.month, w.day), lat, lon)
    def eq(w):
        return all(abs((x - z).total_seconds()) < 1e-3 for x, z in zip(got, w))
    if eq(day(t.astimezone(UTC))):
        return [x.timestamp() for x in got]
    if eq(day(t.replace(tzinfo=None) + t.utcoffset())):
        raise Violation(what + " gives the events of another day (the UTC offset is added instead of subtracted): %s" % got[2], key="offset added instead of subtracted")
    raise Violation(what + " gives %r" % (got,))


# --------------------------------------------------------------------------- irradiance
def cosd(x):
    return math.cos(math.radians(x))


def sind(x):
    return math.sin(math.radians(x))


def angle(tilt, saz, zen, az):
    n = (sind(tilt) * sind(saz), sind(tilt) * cosd(saz), cosd(tilt))
    s = (sind(zen) * sind(az), sind(zen) * cosd(az), cosd(zen))
    c = sum(x * y for x, y in zip(n, s))
    what = "(tilt=%r, azimuth=%r, zenith=%r, sun azimuth=%r)" % (tilt, saz, zen, az)
    expect(ir.aoi_projection(tilt, saz, zen, az), c, 1e-9, 1e-12, "aoi_projection" + what)
    ok, got = attempt(ir.aoi, tilt, saz, zen, az)
    need(ok, "aoi%s raised %r" % (what, got))
    cr = (n[1] * s[2] - n[2] * s[1], n[2] * s[0] - n[0] * s[2], n[0] * s[1] - n[1] * s[0])
    expect(got, math.degrees(math.atan2(math.sqrt(sum(x * x for x in cr)), c)), 0, 3e-6, "aoi" + what)
    return got


def planeof(tilt, saz, zen, az, dni, ghi, dhi, alb):
    r = ir.get_total_irradiance(surface_tilt=tilt, surface_azimuth=saz, solar_zenith=zen, solar_azimuth=az, dni=dni, ghi=ghi, dhi=dhi, albedo=alb)
    c = cosd(tilt) * cosd(zen) + sind(tilt) * sind(zen) * cosd(az - saz)
    w = {"poa_direct": max(dni * c, 0.0), "poa_sky_diffuse": dhi * (1 + cosd(tilt)) / 2, "poa_ground_diffuse": ghi * alb * (1 - cosd(tilt)) / 2}
    w["poa_diffuse"] = w["poa_sky_diffuse"] + w["poa_ground_diffuse"]
    w["poa_global"] = w["poa_diffuse"] + w["poa_direct"]
    need(set(w) == set(r), "keys %r" % sorted(r))
    for k in w:
        expect(r[k], w[k], 1e-9, 1e-7 * max(1.0, dni), "get_total_irradiance(tilt=%r, azimuth=%r, zenith=%r, sun=%r, dni=%r, ghi=%r, dhi=%r, albedo=%r)[%s]" % (tilt, saz, zen, az, dni, ghi, dhi, alb, k))
        need(r[k] >= -1e-9, k)
    expect(ir.isotropic(tilt, dhi), w["poa_sky_diffuse"], 1e-12, 1e-12, "isotropic")
    expect(ir.get_sky_diffuse(tilt, saz, zen, az, dni, ghi, dhi), w["poa_sky_diffuse"], 1e-12, 1e-12, "get_sky_diffuse")
    expect(ir.get_ground_diffuse(tilt, ghi, alb), w["poa_ground_diffuse"], 1e-12, 1e-12, "get_ground_diffuse")
    return [r[k] for k in sorted(r)]


def am(z):
    if z - 96.07995 > -1e-9:
        return None
    return 1 / (cosd(z) + 0.50572 * (96.07995 - z) ** -1.6364)


def inei(z, amabs, tl, alt, I0, enh):
    c = max(cosd(z), 0.0)
    f1, f2 = math.exp(-alt / 8000), math.exp(-alt / 1250)
    g = math.exp(-(3.92e-5 * alt + 0.0387) * amabs * (f1 + f2 * (tl - 1)))
    if enh:
        g *= math.exp(0.01 * amabs ** 1.8)
    ghi = (5.09e-5 * alt + 0.868) * I0 * c * g
    dn = (0.664 + 0.163 / f1) * math.exp(-0.09 * amabs * (tl - 1)) * I0
    if c > 0:
        dn = min(dn, ghi * min((1 - (0.1 - 0.2 * math.exp(-tl)) / (0.1 + 0.882 / f1)) / c, 1e20))
    else:
        dn = min(dn, ghi * 1e20)
    return ghi, dn, ghi - dn * c


def clear(z, p, tl, alt, I0, enh):
    rel = ir.get_relative_airmass(z)
    w = am(z)
    if w is None or isinstance(w, complex):
        need(rel != rel, "relative air mass below the horizon is %r" % rel)
        r = ir.ineichen(z, rel, tl, alt, I0, enh)
        need(r == {"ghi": 0.0, "dni": 0.0, "dhi": 0.0}, "night: %r" % r)
        return TRIVIAL
    expect(rel, w, 1e-11, 0, "get_relative_airmass(%r)" % z)
    m = ir.get_absolute_airmass(rel, p)
    expect(m, w * p / 101325.0, 1e-12, 0, "get_absolute_airmass(%r, %r)" % (rel, p))
    r = ir.ineichen(z, m, tl, alt, I0, enh)
    g, dn, dh = inei(z, m, tl, alt, I0, enh)
    what = "ineichen(apparent_zenith=%r, airmass=%r, linke=%r, altitude=%r, dni_extra=%r, perez=%r)" % (z, m, tl, alt, I0, enh)
    expect(r["ghi"], g, 1e-9, 1e-9, what + " ghi")
    if abs(cosd(z)) > 1e-12:
        expect(r["dni"], dn, 1e-9, 1e-9, what + " dni")
        expect(r["dhi"], dh, 1e-9, 1e-8, what + " dhi")
    expect(r["ghi"], r["dhi"] + r["dni"] * max(0.0, cosd(z)), 1e-9, 1e-9, what + ": components")
    need(r["ghi"] >= 0 and r["dni"] >= 0, what + ": negative %r" % r)
    return r["ghi"], r["dni"]


def irradiation(moment, lat, lon, Z, tilt, saz, T, P, tl, alb, tzh):
    m = moment if tzh is None else moment.replace(tzinfo=UTC).astimezone(tz(tzh))
    kw = {}
    if T is not None:
        kw["T"] = T
    if P is not None:
        kw["P"] = P
    doy = m.timetuple().tm_yday
    if T is None or P is None:
        at = ra.ATMOSPHERE_NRLMSISE00(Z=Z, latitude=lat, longitude=lon, day=doy)
    Tc = at.T if T is None else T
    Pc = at.P if P is None else P
    az0, z0, _, _, az, _ = ra.solar_position(moment=moment, latitude=lat, longitude=lon, Z=Z, T=Tc, P=Pc)
    what = "solar_irradiation(%r, lat=%r, lon=%r, Z=%r, tilt=%r, azimuth=%r, T=%r, P=%r, linke=%r)" % (m, lat, lon, Z, tilt, saz, T, P, tl)
    sun = saz == "sun"
    if sun:
        if not 0 < az0 < 90:
            return TRIVIAL
        tilt, saz = az0, az
    got = a.solar_irradiation(latitude=lat, longitude=lon, Z=Z, moment=m, surface_tilt=tilt, surface_azimuth=saz, linke_turbidity=tl, albedo=alb, **kw)
    w = am(az0)
    if w is None:
        ghi = dn = dh = 0.0
    else:
        ghi, dn, dh = inei(az0, w * Pc / 101325.0, tl, Z, 1366.1, True)
    c = cosd(tilt) * cosd(az0) + sind(tilt) * sind(az0) * cosd(az - saz)
    d, s, g = max(dn * c, 0.0), dh * (1 + cosd(tilt)) / 2, ghi * alb * (1 - cosd(tilt)) / 2
    if abs(az0 - 96.08) < 1e-3 or abs(az0 - 90) < 1e-5:
        return TRIVIAL
    for n, x, y in zip(("global", "direct", "diffuse", "sky", "ground"), got, (d + s + g, d, s + g, s, g)):
        expect(x, y, 1e-5, 1e-4, what + ": " + n)
    if T is not None and P is not None:
        cache = {"apparent_zenith": az0, "zenith": z0, "azimuth": az}
        c0 = dict(cache)
        g2 = a.solar_irradiation(latitude=lat, longitude=lon, Z=Z, moment=m, surface_tilt=tilt, surface_azimuth=saz, linke_turbidity=tl, albedo=alb, cache=cache, **kw)
        expect(list(g2), list(got), 1e-8, 1e-7, what + ": with cached sun position")
        need(cache == c0, "cache was changed")
    if sun and w is not None:
        need(got[1] >= dn * (1 - 1e-6), what + ": facing the sun the direct part is the normal irradiance")
    return got


# --------------------------------------------------------------------------- NRLMSISE-00
ATTR = ["rho", "T", "P", "He_density", "O_density", "N2_density", "O2_density", "Ar_density", "H_density", "N_density", "O_anomalous_density", "particle_density", "T_exospheric", "rho_calculated", "zs"]
AP = [4.0] * 7
AP2 = [100.0, 80.0, 60.0, 40.0, 30.0, 20.0, 10.0]


def nr(mod, kw):
    o = mod.ATMOSPHERE_NRLMSISE00(**kw)
    return {k: getattr(o, k) for k in ATTR}


def empirical(kw):
    kw = dict(kw)
    got = nr(a, kw)
    want = nr(ra, kw)
    what = "ATMOSPHERE_NRLMSISE00(%r)" % kw
    for k in ATTR:
        expect(got[k], want[k], 1e-8, 1e-25 if k == "rho" else 1e-12, what + "." + k)
    den = [got[k] for k in ("N2_density", "O2_density", "Ar_density", "He_density", "O_density", "H_density", "N_density")]
    need(all(x >= 0 for x in den) and got["T"] > 100 and got["P"] > 0 and got["rho"] > 0, what + ": %r" % got)
    expect(got["particle_density"], sum(den), 1e-12, 0, what + ": total")
    expect(got["P"], sum(den) * got["T"] * R_ / N_A, 1e-6, 0, what + ": ideal gas law")
    expect(got["zs"], [x / sum(den) for x in den], 1e-12, 1e-300, what + ": fractions")
    MW = [28.0134, 31.9988, 39.948, 4.002602, 15.9994, 1.00794, 14.0067]
    expect(got["rho_calculated"], sum(x * m for x, m in zip(den, MW)) / (1000 * N_A), 1e-6, 0, what + ": mass density")
    if kw["Z"] < 7e5:
        expect(got["rho"], got["rho_calculated"], 3e-3, 0, what + ": mass density against composition")
    if 0 <= kw["Z"] <= 80e3:
        s = ra.ATMOSPHERE_1976(kw["Z"])
        need(0.4 < got["rho"] / s.rho < 2.5 and abs(got["T"] - s.T) < 75, what + ": far from the standard atmosphere")
    if kw["Z"] >= 3e5:
        need(got["T"] <= got["T_exospheric"] * (1 + 1e-9), what + ": hotter than the exosphere")
    # hydrostatic balance where the model integrates it
    z = kw["Z"]
    if 1e3 <= z <= 70e3:
        h = 50.0
        p = [a.ATMOSPHERE_NRLMSISE00(**dict(kw, Z=z + s)).P for s in (-h, h)]
        gz = 9.80665 * (6356766.0 / (6356766.0 + z)) ** 2
        expect((p[0] - p[1]) / (2 * h), got["rho"] * gz, 0.02, 0, what + ": hydrostatic balance")
    lon = kw.get("longitude", 0.0)
    o2 = nr(a, dict(kw, longitude=lon + 360.0 if lon < 0 else lon - 360.0))
    for k in ("T", "P", "rho"):
        expect(o2[k], got[k], 2e-3, 0, what + ": longitude given as 0..360: " + k)
    return got["T"], got["rho"]


HIST = [dict(Z=1e3), dict(Z=9e4, latitude=45.0, longitude=45.0, day=150), dict(Z=4.5e5, latitude=-60.0, longitude=-100.0, day=200, seconds=40000.0, f107=220.0, f107_avg=180.0),
        dict(Z=4.5e5, latitude=-60.0, longitude=-100.0, day=200, seconds=40000.0, geomagnetic_disturbance_indices=AP2), dict(Z=3.2e4, latitude=80.0, day=365), dict(Z=1.2e5, f107=70.0, f107_avg=80.0), dict(Z=7.2e4, longitude=179.0, seconds=80000.0)]


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = pickle.dumps((True, fn()))
        except BaseException as e:      # noqa: BLE001 - report to the parent
            out = pickle.dumps((False, repr(e)))
        os.write(w, out)
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    os.waitpid(pid, 0)
    ok, v = pickle.loads(buf)
    if not ok:
        raise Violation(v)
    return v


def history(first):
    """all sequences that start with input `first`, depth 3, each in a fresh process; every answer against that input's answer in a fresh process"""
    fresh = [forked(lambda i=i: nr(a, HIST[i])) for i in range(len(HIST))]
    seqs = [(first, j, k) for j in range(len(HIST)) for k in range(len(HIST))]
    n = 0
    for s in seqs:
        for i, r in zip(s, forked(lambda: [nr(a, HIST[i]) for i in s])):
            n += 1
            if r != fresh[i]:
                bad = [k for k in ATTR if r[k] != fresh[i][k]]
                raise Violation("after the calls %r, ATMOSPHERE_NRLMSISE00(%r) answers %s = %r, in a fresh process %r" % ([HIST[q] for q in s], HIST[i], bad[0], r[bad[0]], fresh[i][bad[0]]))
    return Outcome(n, states=n, transitions=n, traces=len(seqs), evals=n)


def spaces(tier):
    q = tier == "quick"
    moments = [dt.datetime(y, m, d, h, 43, 5) for y, m, d in [(2018, 4, 15), (2018, 1, 1), (2018, 12, 31), (2020, 2, 29), (1999, 6, 21), (2004, 9, 22), (2005, 1, 1), (2049, 12, 31), (1971, 3, 20), (2100, 7, 1)] for h in (0, 5, 12, 19, 23)]
    places = [(51.0486, -114.07), (0.0, 0.0), (-33.9, 151.2), (78.2, 15.6), (-77.8, 166.7), (23.44, 180.0), (-10.0, -180.0), (89.9, 10.0)]
    days = [(2018, m, d) for m in range(1, 13) for d in ((1, 21) if q else (1, 8, 15, 21, 28))] + [(2020, 2, 29), (2019, 12, 31), (1999, 3, 20), (2018, 4, 17)]
    nk = []
    for Z in (0.0, 1e3, 1.1e4, 3e4, 3.25e4, 4.5e4, 6.2e4, 7.2e4, 7.25e4, 8.6e4, 1e5, 1.2e5, 1.5e5, 3e5, 5e5, 1e6):
        for i, (lat, lon) in enumerate(places):
            for day, sec in ((1, 0.0), (172, 29000.0), (355, 75000.0)):
                for f, fa in ((150.0, 150.0), (70.0, 75.0), (240.0, 190.0)):
                    for ap in (None, AP, AP2):
                        if q and (i + int(day) + int(f) + (0 if ap is None else 1 if ap is AP else 2)) % 3:
                            continue
                        nk.append(dict(Z=Z, latitude=lat, longitude=lon, day=day, seconds=sec, f107=f, f107_avg=fa, geomagnetic_disturbance_indices=ap))
    suns = [(z, az) for z in (0.0, 1e-6, 20.3, 45.0, 70.3, 89.9, 90.0, 95.0, 120.0) for az in (0.0, 37.7, 90.0, 182.5, 270.0, 359.9)]
    surf = [(t, s) for t in (0.0, 20.3, 41.0, 70.3, 90.0, 135.0, 180.0) for s in (0.0, 37.7, 90.0, 180.0, 270.0, 359.9)]
    return [
        Space("positions", lambda: [(m, la, lo, Z, T, P) for m in moments for la, lo in places for Z, T, P in ((0.0, 298.15, 101325.0), (2500.0, 260.0, 75000.0))], lambda c: wrap(*c)),
        Space("rise and set", lambda: [(y, m, d, la, lo, h) for y, m, d in days for la in (0.0, 25.0, -40.0, 51.0486, -60.0, 68.0, 80.0) for lo, hs in ((-114.07, -7), (0.0, 0), (151.2, 10), (100.0, 6.5), (-60.0, -4)) for h in (None, hs, 0, 5.5)], lambda c: riseset(*c)),
        Space("zones", lambda: [(h, y, m, d, hr, la, lo) for h in (0, -7, 5.5, 12, -4, 10, -11) for y, m, d in ((2018, 4, 17), (2020, 3, 1), (2019, 12, 31)) for hr in (0, 1, 3, 6, 11, 12, 13, 18, 22, 23) for la, lo in ((51.0, -114.0), (-30.0, 150.0), (0.0, 0.0))], lambda c: zones(*c)),
        Space("incidence", lambda: [(t, s, z, az) for t, s in surf for z, az in suns] + [(z + .3, az, z + .3, az) for z in range(90) for az in range(0, 360, 7)], lambda c: angle(*c)),
        Space("plane of array", lambda: [(t, s, z, az, dni, ghi, dhi, al) for t, s in surf for z, az in suns for dni, ghi, dhi in ((900.0, 700.0, 90.0), (0.0, 0.0, 0.0), (0.0, 50.0, 50.0)) for al in (0.25, 0.0, 0.9)], lambda c: planeof(*c)),
        Space("clear sky", lambda: [(z, p, tl, alt, I0, e) for z in (0.0, 30.0, 60.0, 80.0, 88.0, 89.99, 90.0, 91.0, 95.0, 96.0, 96.07, 96.09, 100.0, 180.0) for p in (101325.0, 6e4) for tl in (1.0, 2.0, 3.0, 7.0) for alt in (0, 1100.0, 4000.0) for I0 in (1364.0, 1412.0) for e in (False, True)], lambda c: clear(*c)),
        Space("irradiation", lambda: [(m, la, lo, Z, t, s, T, P, tl, al, h) for m in moments[:: (2 if q else 1)] for la, lo, Z in ((51.0486, -114.07, 1100.0), (-33.9, 151.2, 0.0), (0.0, 0.0, 4000.0)) for t, s in ((41.0, 180.0), (0.0, 0.0), (90.0, 90.0), (0.0, "sun")) for T, P in ((None, None), (300.0, 1e5), (None, 9e4), (280.0, None))
                                     for tl, al in ((3, 0.25), (7.0, 0.6)) for h in (None, -7)], lambda c: irradiation(*c)),
        Space("empirical atmosphere", lambda: nk, empirical, key=lambda c: repr(sorted(c.items()))),
        Space("empirical atmosphere, histories", lambda: list(range(len(HIST))), history, limit=300),
        conform_space("conformance", modules=["optional.irradiance", "nrlmsise00.nrlmsise_00"], tier=tier),
    ]
