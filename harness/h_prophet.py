"""C20 the Prophet detectors: what is fitted, what is asked and what is made of the answer."""
import copy
import os

import numpy as np
import pandas as pd
from scipy.stats import norm
from symex.registry import harness
from .common import *
import kats.detectors.prophet_detector as PD
import kats.detectors.threshold_detector as TD
from kats.consts import DataError, DataInsufficientError, InternalError, ParameterError, TimeSeriesData
from kats.detectors.prophet_detector import (GrowthType, ProphetDetectorModel, ProphetScoreFunction, ProphetTrendDetectorModel,
                                             SeasonalityTypes as S)

os.environ.setdefault(PD.NOT_SUPPRESS_PROPHET_FIT_LOGS_VAR_NAME, "1")
REAL = PD.Prophet, PD.predict, PD.make_holidays_df
DT = object if SYMBOLIC else float


class Fake(object):
    """records what it is asked; the forecast is arbitrary by day"""
    made, asked, holidays_asked = [], [], []
    yhat, half, extra = (), (), ()

    def __init__(self, **kw):
        self.kw, self.fits, self.seasons, self.country = kw, [], [], None
        self.uncertainty_samples = kw.get("uncertainty_samples")
        self.interval_width = kw.get("interval_width")
        Fake.made.append(self)

    def add_seasonality(self, **kw):
        self.seasons.append(kw)

    def add_country_holidays(self, c):
        self.country = c

    def fit(self, df, **kw):
        self.fits.append(df.copy())
        self.changepoints = pd.Series(list(df.ds.iloc[Fake.at]), index=list(Fake.at), dtype="datetime64[ns]")
        self.params = {"delta": np.array([list(r) for r in Fake.delta], dtype=DT)}
        return self

    at, delta = [], []

    @classmethod
    def day(cls, t):
        return int((t - T0) // pd.Timedelta(1, "D"))


def predict(model, df, vectorized=False, confidence_band_margin=None):
    n = len(df)
    Fake.asked.append({"model": model, "df": df.copy(), "vec": vectorized, "margin": confidence_band_margin,
                       "samples": model.uncertainty_samples})
    out = {"ds": list(df.ds)}
    d = [Fake.day(t) for t in df.ds]
    y = [Fake.yhat[i % len(Fake.yhat)] for i in d]
    out["yhat"] = pd.Series(y, dtype=DT)
    if model.uncertainty_samples:
        h = [Fake.half[i % len(Fake.half)] for i in d]
        out["yhat_lower"] = pd.Series([a - b for a, b in zip(y, h)], dtype=DT)
        out["yhat_upper"] = pd.Series([a + 2.0 * b for a, b in zip(y, h)], dtype=DT)
    return pd.DataFrame(out)


def country(year_list, country, *a, **k):
    Fake.holidays_asked.append((sorted(year_list), country))
    return pd.DataFrame({"ds": [T0 + pd.Timedelta(5, "D")], "holiday": ["day"]})


class stubbed(object):
    def __init__(self, yhat=(1.0,), half=(1.0,), at=(), delta=()):
        Fake.yhat, Fake.half, Fake.at, Fake.delta = yhat, half, list(at), delta
        del Fake.made[:], Fake.asked[:], Fake.holidays_asked[:]

    def __enter__(self):
        PD.Prophet, PD.predict, PD.make_holidays_df = Fake, predict, country
        return Fake

    def __exit__(self, *a):
        PD.Prophet, PD.predict, PD.make_holidays_df = REAL


def vals(ts):
    return list(ts.value)


K = norm.ppf(0.9)


def want_scores(ctx, kind, ys, yh, half, ci, legacy):
    out = []
    for v, p, h in zip(ys, yh, half):
        if kind == "deviation":
            out.append((v - p) / abs(p))
            continue
        width = 3.0 * h
        if legacy:
            sd = (50 ** 0.5) / 2 * width / ci
        else:
            sd = (50 ** 0.5) * (K / 0.8) / 2 * width / norm.ppf(ci / 2 + 0.5)
        out.append((v - p) / ctx.ite(sd < 1e-9, 1e-9, sd))
    return out


@harness("C20", params=[{"kind": k, "legacy": l, "ci": c, "via": v} for k, l, c, v in
                        [("deviation", True, 0.8, "fit_predict"), ("deviation", False, 0.8, "fit"), ("z", True, 0.8, "fit_predict"),
                         ("z", True, 0.95, "fit"), ("z", False, 0.8, "fit"), ("z", False, 0.5, "fit_predict"), ("z", True, 0.8, "str")]])
def scores(ctx, kind, legacy, ci, via):
    """a score is the distance of the value from the prediction, relative to the prediction or to the width of the band"""
    h, n = 4, 3
    off = list(range(h)) + [h, h + 1, h + 3]
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(h + n)]
    yh = [ctx.real("p%d" % i, -50, 50) for i in range(h + n + 1)]
    half = [ctx.real("w%d" % i, 0, 9) for i in range(2)]
    for p in yh:
        ctx.assume(p != 0)
    fn = {"deviation": ProphetScoreFunction.deviation_from_predicted_val, "z": ProphetScoreFunction.z_score}[kind]
    fn = fn.value if via == "str" else fn
    hist, data = tsd(ctx, ys[:h]), tsd(ctx, ys[h:], offsets=off[h:])
    with stubbed(yh, half) as f:
        m = ProphetDetectorModel(score_func=fn, scoring_confidence_interval=ci, use_legacy_z_score=legacy, vectorize=(via == "fit"))
        if via == "fit":
            m.fit(hist)
            r = m.predict(data)
        else:
            r = m.fit_predict(data, hist)
        made, asked = list(f.made), list(f.asked)
    ctx.check(len(made) == 1 and len(made[0].fits) == 1 and len(asked) == 1, "one model, one question")
    p = made[0]
    ctx.check([Fake.day(t) for t in p.fits[0].ds] == off[:h], "times fitted")
    ctx.eq_list(list(p.fits[0].y), ys[:h], "values fitted")
    ctx.check(p.kw["interval_width"] == ci and p.kw["growth"] == "linear" and p.kw["holidays"] is None, "settings")
    ctx.check(p.kw["uncertainty_samples"] == (50 if kind == "z" else 0) and asked[0]["samples"] == p.kw["uncertainty_samples"], "samples")
    ctx.check(asked[0]["vec"] == (via == "fit") and [Fake.day(t) for t in asked[0]["df"].ds] == off[h:], "times asked")
    want = [yh[o % len(yh)] for o in off[h:]]
    hw = [half[o % 2] for o in off[h:]]
    for ts in [r.scores, r.predicted_ts, r.anomaly_magnitude_ts, r.stat_sig_ts, r.confidence_band.upper, r.confidence_band.lower]:
        ctx.check(offs(ts.time) == off[h:], "times of the answer")
    ctx.eq_list(vals(r.predicted_ts), want, "prediction")
    ctx.eq_list(vals(r.confidence_band.upper), [a + 2.0 * b if kind == "z" else a for a, b in zip(want, hw)], "upper")
    ctx.eq_list(vals(r.confidence_band.lower), [a - b if kind == "z" else a for a, b in zip(want, hw)], "lower")
    ctx.eq_list(vals(r.scores), want_scores(ctx, kind, ys[h:], want, hw, ci, legacy), "score")
    ctx.check(vals(r.anomaly_magnitude_ts) == [0.0] * n and vals(r.stat_sig_ts) == [0.0] * n, "nothing else")
    ctx.eq_list(vals(hist), ys[:h], "history unchanged")
    ctx.eq_list(vals(data), ys[h:], "data unchanged")
    ctx.check(offs(hist.time) == off[:h] and offs(data.time) == off[h:], "times unchanged")
    ctx.reach("end")


@harness("C20")
def zero_width(ctx):
    """a band without width gives finite scores with the sign of the deviation"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(4)]
    yh = [ctx.real("p%d" % i, -50, 50) for i in range(4)]
    legacy = ctx.choice("legacy", [True, False])
    with stubbed(yh, [0.0]):
        m = ProphetDetectorModel(score_func="z_score", use_legacy_z_score=legacy)
        r = m.fit_predict(tsd(ctx, ys[2:], offsets=[2, 3]), tsd(ctx, ys[:2]))
    for s, y, p in zip(vals(r.scores), ys[2:], yh[2:]):
        ctx.eq(s, (y - p) / 1e-9, "score")
    ctx.reach("end")


@harness("C20")
def with_history(ctx):
    """fit uses the history and the data that follows, and leaves both as they were"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(6)]
    a, b = tsd(ctx, ys[:4]), tsd(ctx, ys[4:], offsets=[4, 5])
    with stubbed() as f:
        m = ProphetDetectorModel()
        m.fit(b, a)
        made = list(f.made)
    df = made[-1].fits[0]
    ctx.check([Fake.day(t) for t in df.ds] == [0, 1, 2, 3, 4, 5], "times fitted")
    ctx.eq_list(list(df.y), ys, "values fitted")
    ctx.check(offs(a.time) == [0, 1, 2, 3] and offs(b.time) == [4, 5], "times unchanged")
    ctx.eq_list(vals(a), ys[:4], "history unchanged")
    ctx.eq_list(vals(b), ys[4:], "data unchanged")
    ctx.reach("end")


@harness("C20")
def grow(ctx):
    """an answer can be extended and updated without its parts running into each other"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(6)]
    yh = [ctx.real("p%d" % i, 1, 50) for i in range(6)]
    with stubbed(yh):
        m = ProphetDetectorModel()
        m.fit(tsd(ctx, ys[:2]))
        r = m.predict(tsd(ctx, ys[2:4], offsets=[2, 3]))
        r2 = m.predict(tsd(ctx, ys[4:], offsets=[4, 5]))
    first = vals(r.scores)
    r.inplace_update(time=T0 + pd.Timedelta(3, "D"), score=7.0, ci_upper=8.0, ci_lower=6.0, pred=5.0, anom_mag=4.0, stat_sig=3.0)
    for ts, old, new in [(r.scores, first[0], 7.0), (r.confidence_band.upper, yh[2], 8.0), (r.confidence_band.lower, yh[2], 6.0),
                         (r.predicted_ts, yh[2], 5.0), (r.anomaly_magnitude_ts, 0.0, 4.0), (r.stat_sig_ts, 0.0, 3.0)]:
        ctx.eq_list(vals(ts), [old, new], "one change")
    second = vals(r2.scores)
    r.extend(r2)
    for ts in [r.scores, r.predicted_ts, r.anomaly_magnitude_ts, r.stat_sig_ts, r.confidence_band.upper, r.confidence_band.lower]:
        ctx.check(offs(ts.time) == [2, 3, 4, 5], "times")
    ctx.eq_list(vals(r.scores), [first[0], 7.0] + second, "scores")
    ctx.eq_list(vals(r.predicted_ts), [yh[2], 5.0, yh[4], yh[5]], "predictions")
    ctx.reach("end")


@harness("C20", params=[{"multi": b} for b in [False, True]])
def exclude(ctx, multi):
    """the data of the excluded ranges, both ends included, is not fitted; all of the data is scored"""
    n = 7
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    a = ctx.choice("a", [0, 2, 5])
    b = ctx.choice("b", [0, 1, 3])
    unix = ctx.choice("unix", [True, False])
    t = lambda d: int((T0 + pd.Timedelta(d, "D")).timestamp()) if unix else T0 + pd.Timedelta(d, "D")
    ranges = [[t(a), t(a + b)]] + ([[t(6), t(8)]] if multi else [])
    keep = [i for i in range(n) if not (a <= i <= a + b or (multi and i >= 6))]
    x = tsd(ctx, ys)
    with stubbed([2.0]) as f:
        m = ProphetDetectorModel(exclude_training_ranges=ranges)
        m.fit(x)
        r = m.predict(x)
        df = f.made[-1].fits[0]
    ctx.check([Fake.day(v) for v in df.ds] == keep, "times fitted")
    ctx.eq_list(list(df.y), [ys[i] for i in keep], "values fitted")
    ctx.eq_list(vals(r.scores), [(y - 2.0) / 2.0 for y in ys], "scores")
    ctx.check(offs(x.time) == list(range(n)), "times unchanged")
    ctx.eq_list(vals(x), ys, "data unchanged")
    ctx.reach("end")


@harness("C20")
def exclude_wrong(ctx):
    """ranges that leave nothing or are not ranges are refused"""
    x = tsd(ctx, [ctx.real("y%d" % i, -50, 50) for i in range(4)])
    t = lambda d: T0 + pd.Timedelta(d, "D")
    for bad, err in [([[t(0), t(3)]], DataError), ([[t(0), t(1)], [t(1), t(9)]], DataError), ([[t(0)]], ValueError),
                     ([[t(0), t(1), t(2)]], ValueError), ([[None, t(2)]], ValueError), ([[t(1), None]], ValueError)]:
        with stubbed() as f:
            try:
                ProphetDetectorModel(exclude_training_ranges=bad).fit(x)
                ctx.check(False, "refused")
            except err:
                pass
            ctx.check(not f.made, "nothing fitted")
    ctx.reach("end")


@harness("C20", params=[{"sat": b} for b in [False, True]])
def outliers(ctx, sat):
    """what lies outside the wide band of a first model is not fitted by the second"""
    n = 3
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    yh = [ctx.real("p%d" % i, -50, 50) for i in range(n)]
    w = ctx.real("w", 0, 9)
    x = tsd(ctx, ys)
    with stubbed(yh, [w]) as f:
        m = ProphetDetectorModel(remove_outliers=True, outlier_threshold=0.97, outlier_removal_uncertainty_samples=33, vectorize=sat,
                                 saturation_range=[-60.0, 60.0] if sat else None)
        m.fit(x)
        made, asked = list(f.made), list(f.asked)
    ctx.check(len(made) == 2 and len(asked) == 1, "two models")
    ctx.check(made[0].kw["interval_width"] == 0.97 and made[0].kw["uncertainty_samples"] == 33, "first model")
    ctx.check(asked[0]["model"] is made[0] and asked[0]["vec"] == sat, "asked of the first")
    ctx.check([Fake.day(t) for t in asked[0]["df"].ds] == list(range(n)), "all times asked")
    ctx.eq_list(list(made[0].fits[0].y), ys, "first fit")
    keep = [bool(ys[i] >= yh[i] - w) and bool(ys[i] <= yh[i] + 2.0 * w) for i in range(n)]
    df = made[1].fits[0]
    ctx.check([Fake.day(t) for t in df.ds] == [i for i in range(n) if keep[i]], "times kept")
    ctx.eq_list(list(df.y), [ys[i] for i in range(n) if keep[i]], "values kept")
    if sat:
        ctx.check(set(df.cap) <= {60.0} and set(df.floor) <= {-60.0}, "limits")
    ctx.check(m.model is made[1], "the second is the model")
    ctx.eq_list(vals(x), ys, "data unchanged")
    ctx.reach("end")


@harness("C20", params=[{"growth": g} for g in ["linear", "logistic", "flat"]])
def saturation(ctx, growth):
    """a saturation range makes growth logistic and is given to the fit and to the prediction"""
    lo = ctx.choice("lo", [-60.0, 0])
    hi = ctx.choice("hi", [60, 90.5])
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(5)]
    with stubbed([2.0]) as f:
        m = ProphetDetectorModel(saturation_range=[lo, hi], growth_type=growth)
        m.fit_predict(tsd(ctx, ys[3:], offsets=[3, 4]), tsd(ctx, ys[:3]))
        made, asked = list(f.made), list(f.asked)
        m2 = ProphetDetectorModel(saturation_range=[], growth_type=growth)
        m2.fit(tsd(ctx, ys))
        made2 = list(f.made)
    ctx.check(made[0].kw["growth"] == "logistic", "growth")
    for df in [made[0].fits[0], asked[0]["df"]]:
        ctx.check(set(df["cap"]) == {hi} and set(df["floor"]) == {lo}, "limits")
    ctx.check(made2[-1].kw["growth"] == growth and "cap" not in made2[-1].fits[0].columns, "no range")
    ctx.reach("end")


@harness("C20")
def refused(ctx):
    """settings and calls that make no sense are refused"""
    x = tsd(ctx, [ctx.real("y%d" % i, -50, 50) for i in range(4)])
    for bad in [[1.0], [1, 2, 3], ["a", 3], (1, 2), [2, 2], [3, 2.0]]:
        try:
            ProphetDetectorModel(saturation_range=bad)
            ctx.check(False, "range")
        except ValueError:
            pass
    try:
        ProphetDetectorModel(growth_type="cubic")
        ctx.check(False, "growth")
    except ParameterError:
        pass
    try:
        ProphetDetectorModel().predict(x)
        ctx.check(False, "before fit")
    except InternalError:
        pass
    for how in [lambda m: m.fit_predict(x), lambda m: m.fit_predict(x, None)]:
        try:
            how(ProphetDetectorModel())
            ctx.check(False, "no history")
        except DataInsufficientError:
            pass
    with stubbed():
        try:
            ProphetDetectorModel().fit(tsd_multi(ctx, {"a": [1.0, 2.0, 4.0], "b": [2.0, 3.0, 1.0]}))
            ctx.check(False, "multivariate")
        except DataError:
            pass
        for bad in [[1], [["2020-01-01"]]]:
            try:
                ProphetDetectorModel(holidays_list=bad).fit(x)
                ctx.check(False, "holidays")
            except ValueError:
                pass
    ctx.reach("end")


SETS = [(None, {}), (S.WEEKEND, {S.WEEKEND: True}), ([S.DAY, S.YEAR], {S.DAY: True, S.YEAR: True}), (["week", "Weekend"], {S.WEEK: True, S.WEEKEND: True}),
        ({S.WEEKEND: "auto"}, {S.WEEKEND: "auto"}), ({S.WEEKEND: False, S.DAY: False}, {S.WEEKEND: False, S.DAY: False}),
        ({S.WEEKEND: "auto", S.WEEK: "auto", S.YEAR: True}, {S.WEEKEND: "auto", S.WEEK: "auto", S.YEAR: True}), ([], {})]


@harness("C20", params=[{"k": k} for k in range(len(SETS))])
def seasons(ctx, k):
    """the seasonalities asked for are the ones fitted, the others are left to Prophet, except for the weekend"""
    given, want = copy.copy(SETS[k][0]), dict(SETS[k][1])
    spacing = ctx.choice("spacing", [1, 7])
    n = ctx.choice("n", [3, 14, 15, 16])
    b = ctx.real("b", -5, 5)
    ys = [b + 0.5 * i for i in range(n)]
    off = [i * spacing for i in range(n)]
    with stubbed([b + 20.0]) as f:
        m = ProphetDetectorModel(seasonalities=given)
        for again in range(2):
            m.fit(tsd(ctx, ys, offsets=off))
            r = m.predict(tsd(ctx, [b, b, b], offsets=[off[-1] + i for i in (1, 2, 4)]))
        made, asked = list(f.made), list(f.asked)
    ctx.check(given == SETS[k][0], "settings handed in unchanged")
    we = want.get(S.WEEKEND, False)
    if we == "auto":
        we = bool((n - 1) * spacing >= 14 and spacing < 7)
    week = want.get(S.WEEK, False if we else "auto")
    for p in made:
        ctx.check(p.kw["daily_seasonality"] == want.get(S.DAY, "auto") and p.kw["yearly_seasonality"] == want.get(S.YEAR, "auto"), "day, year")
        ctx.check(p.kw["weekly_seasonality"] == week, "week")
        ctx.check([s["name"] for s in p.seasons] == (["weekend_mask", "workday_mask"] if we else []), "weekend")
        for s in p.seasons:
            ctx.check(s["period"] == 7 and s["condition_name"] == s["name"], "condition")
    if we:
        for df in [made[0].fits[0], made[1].fits[0], asked[0]["df"], asked[1]["df"]]:
            for t, a, c in zip(df.ds, df.weekend_mask, df.workday_mask):
                # 2020-01-01 is a Wednesday
                sat_sun = (Fake.day(t) + 2) % 7 >= 5
                ctx.check(bool(a) == sat_sun and bool(c) == (not sat_sun), "masks")
    ctx.eq_list(vals(r.scores), [-20.0 / abs(b + 20.0)] * 3, "scores")
    ctx.reach("end")


@harness("C20")
def seasons_wrong(ctx):
    """unknown seasonalities and settings are refused"""
    b = ctx.real("b", -5, 5)
    x = tsd(ctx, [b + i for i in range(5)])
    for bad, err in [(["month"], ValueError), ([3], ValueError), ({S.DAY: 3}, ParameterError), ({S.WEEKEND: "yes"}, ParameterError)]:
        with stubbed() as f:
            try:
                ProphetDetectorModel(seasonalities=bad).fit(x)
                ctx.check(False, "refused")
            except err:
                pass
            ctx.check(not f.made, "nothing fitted")
    ctx.reach("end")


D = lambda i: str((T0 + pd.Timedelta(i, "D")).date())


@harness("C20", params=[{"how": h, "mult": m} for h, m in
                        [("list", 0.5), ("dict", 0.0), ("country", 2.0), ("both", 0.5), ("none", 0.5), ("list", 1.0), ("list", None), ("empty", 3.0)]])
def holidays(ctx, how, mult):
    """the scores of holidays, and of no other day, are multiplied; the holidays are given to the model"""
    h = 3
    unit = ctx.choice("unit", ["D", "h12"])
    off = [3, 4, 5, 6, 8] if unit == "D" else [3, 3.5, 4, 4.5, 5]
    n = len(off)
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(h + n)]
    own = {"list": [4, 8, 40], "dict": [3, 4], "both": [4]}.get(how, [])
    given = [D(i) for i in own]
    if how in ("dict",):
        given = {"ds": given, "holiday": ["a", "b"]}
    kw = {"holidays_list": given} if own or how == "empty" else {}
    if how in ("country", "both"):
        kw["country_holidays"] = "XX"
    days = set(own) | ({5} if how in ("country", "both") else set())
    if mult is not None:
        kw["holiday_multiplier"] = mult
    tt = pd.Series([T0 + pd.Timedelta(o, "D") for o in off])
    data = TimeSeriesData(time=tt, value=ctx.series(ys[h:]))
    with stubbed([-4.0]) as f:
        m = ProphetDetectorModel(**kw)
        r = m.fit_predict(data, tsd(ctx, ys[:h]))
        r2 = m.predict(data)
        p = f.made[0]
        asked = list(f.holidays_asked)
    ctx.check((p.country or None) == kw.get("country_holidays"), "country")
    if own:
        ctx.check([str(d)[:10] for d in p.kw["holidays"]["ds"]] == [D(i) for i in own], "holidays fitted")
    else:
        ctx.check(p.kw["holidays"] is None, "no holidays")
    base = [(y + 4.0) / 4.0 for y in ys[h:]]
    k = 1.0 if mult is None else mult
    want = [s * k if int(o) in days else s for s, o in zip(base, off)]
    for a in (r, r2):
        ctx.check(list(a.scores.time) == list(tt), "times")
        ctx.eq_list(vals(a.scores), want, "scores")
        ctx.check(vals(a.predicted_ts) == [-4.0] * n, "prediction")
    for years, c in asked:
        ctx.check(years == [2020] and c == "XX", "years")
    ctx.reach("end")


@harness("C20", params=[{"how": h} for h in ["list", "dict"]])
def restored(ctx, how):
    """a restored model multiplies the scores of holidays like the model that was fitted"""
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(3)]
    given = [D(4)] if how == "list" else {"ds": [D(4)], "holiday": ["x"]}
    real = PD.load_model_from_json
    with stubbed([-4.0]) as f:
        try:
            PD.load_model_from_json = lambda b: f(uncertainty_samples=0, interval_width=0.8)
            m = ProphetDetectorModel(serialized_model=b"{}", holidays_list=given, holiday_multiplier=0.5, seasonalities=S.WEEKEND)
            r = m.predict(tsd(ctx, ys, offsets=[3, 4, 5]))
            asked = f.asked[0]["df"]
        finally:
            PD.load_model_from_json = real
    base = [(y + 4.0) / 4.0 for y in ys]
    ctx.eq_list(vals(r.scores), [base[0], 0.5 * base[1], base[2]], "scores")
    ctx.check([bool(v) for v in asked.weekend_mask] == [True, True, False] and
              [bool(v) for v in asked.workday_mask] == [False, False, True], "masks")
    ctx.reach("end")


@harness("C20", params=[{"rows": k} for k in [1, 2]])
def trend(ctx, rows):
    """trend scores are the mean absolute slope changes at the change points and zero elsewhere"""
    n = 6
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    at = ctx.choice("at", [[1, 3], [0, 5], [2, 4]])
    de = [[ctx.real("d%d%d" % (r, j), -5, 5) for j in range(2)] for r in range(rows)]
    x = tsd(ctx, ys, offsets=[0, 1, 2, 4, 5, 7])
    with stubbed(at=at, delta=de) as f:
        m = ProphetTrendDetectorModel(changepoint_range=0.9, weekly_seasonality="x", changepoint_prior_scale=0.03)
        r = m.fit_predict(x)
        p = f.made[0]
    ctx.check(p.kw == {"changepoint_range": 0.9, "weekly_seasonality": "x", "changepoint_prior_scale": 0.03}, "settings")
    ctx.eq_list(list(p.fits[0].y), ys, "fitted")
    ctx.check([Fake.day(t) for t in p.fits[0].ds] == [0, 1, 2, 4, 5, 7], "times fitted")
    want = [0.0] * n
    for j, i in enumerate(at):
        want[i] = abs(mean([d[j] for d in de]))
    ctx.eq_list(vals(r.scores), want, "scores")
    for ts in [r.scores, r.predicted_ts, r.anomaly_magnitude_ts]:
        ctx.check(offs(ts.time) == [0, 1, 2, 4, 5, 7], "times")
    ctx.check(vals(r.predicted_ts) == [0.0] * n and vals(r.anomaly_magnitude_ts) == [0.0] * n, "nothing else")
    ctx.eq_list(vals(x), ys, "data unchanged")
    for call in [lambda: m.fit(x, None), lambda: m.predict(x, None)]:
        try:
            call()
            ctx.check(False, "not offered")
        except NotImplementedError:
            pass
    ctx.reach("end")


@harness("C20")
def threshold(ctx):
    """the static threshold model scores a point with its value, in an answer of its own"""
    n = 4
    ys = [ctx.real("y%d" % i, -50, 50) for i in range(n)]
    x = tsd(ctx, ys, offsets=[0, 1, 3, 4], name=ctx.choice("name", ["v", None]))
    m = TD.StaticThresholdModel()
    r = m.fit_predict(x, ctx.choice("hist", [None, x]))
    ctx.eq_list(vals(r.scores), ys, "scores")
    ctx.check(offs(r.scores.time) == [0, 1, 3, 4] and vals(r.anomaly_magnitude_ts) == [0.0] * n, "rest")
    r.inplace_update(time=T0 + pd.Timedelta(3, "D"), score=9.0, ci_upper=0.0, ci_lower=0.0, pred=0.0, anom_mag=2.0, stat_sig=0.0)
    ctx.eq_list(vals(r.scores), [ys[0], ys[1], 9.0, ys[3]], "updated")
    ctx.eq_list(vals(x), ys, "data unchanged")
    try:
        m.predict(x, None)
        ctx.check(False, "not offered")
    except ValueError:
        pass
    ctx.reach("end")
