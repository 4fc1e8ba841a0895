"""P17 radar cubes, detectors and point clouds."""
import numpy as np
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from scipy.constants import speed_of_light

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.radar import CFARDetector, MaxDetector, PointDetection, RadarCube, RadarPointCloud, ThresholdDetector

check = Check("P17", "Radar detectors extract exactly the demanded cells of radar cubes")

C = speed_of_light
cube = R(
    seed=seeds, A=st.integers(1, 4), D=st.integers(1, 8), N=st.integers(1, 14), kind=st.sampled_from(["noise", "levels", "sparse", "constant", "zero", "floor"]),
    scale=logfloats(1e-9, 1e9), fc=logfloats(1e6, 1e11), offset=floats(0.0, 5.0),
)


def build(c):
    g = np.random.default_rng(c["seed"])
    shape = (c["A"], c["D"], c["N"])
    if c["kind"] == "noise":
        x = g.exponential(size=shape)
    elif c["kind"] == "levels":
        x = g.integers(0, 4, shape).astype(float)
    elif c["kind"] == "sparse":
        x = g.exponential(size=shape) * (g.random(shape) < 0.1)
    elif c["kind"] == "constant":
        x = np.ones(shape)
    elif c["kind"] == "zero":
        x = np.zeros(shape)
    else:
        x = 3.0 + g.random(shape)
    x *= c["scale"]
    angles = np.stack([g.uniform(-np.pi, np.pi, c["A"]), g.uniform(0, np.pi, c["A"])], axis=1)
    doppler = np.sort(g.normal(size=c["D"])) * 1e3
    ranges = c["offset"] + np.arange(c["N"]) * g.uniform(0.1, 10)
    return RadarCube(x.copy(), angles, doppler, ranges, c["fc"]), x, angles, doppler, ranges


def point(angles, doppler, ranges, fc, i):
    az, ze = angles[i[0]]
    n = np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])
    return ranges[i[2]] * n, doppler[i[1]] * C / fc * n


def compare(r, cloud, x, angles, doppler, ranges, fc, expected, what, undecided=()):
    """Every expected cell appears once at its position, nothing else does."""
    scale_p, scale_v = max(ranges.max(), 1e-9), max(np.max(np.abs(doppler)) * C / fc, 1e-9)
    rows = [(i, *point(angles, doppler, ranges, fc, i), x[tuple(i)]) for i in list(expected) + list(undecided)]
    taken = [False] * len(rows)
    r.close(cloud.max_range, ranges.max(), f"{what}: range represented by the point cloud")
    r.equal(cloud.num_points, len(cloud.points), f"{what}: number of points")
    for q in cloud.points:
        for k, (i, p, v, w) in enumerate(rows):
            if not taken[k] and np.max(np.abs(q.position - p)) <= 1e-9 * scale_p and np.max(np.abs(q.velocity - v)) <= 1e-9 * scale_v and abs(q.power - w) <= 1e-9 * abs(w):
                taken[k] = True
                break
        else:
            r.fail(f"{what}: point at {q.position} with velocity {q.velocity} and power {q.power} is no demanded cell")
    missing = [rows[k][0] for k in range(len(expected)) if not taken[k]]
    r.check(not missing, f"{what}: cells {missing[:3]} not detected")


def peaks(x):
    """Cells not exceeded by any of the cells sharing a face with them."""
    out = np.ones(x.shape, bool)
    for ax in range(3):
        for s in (1, -1):
            n = np.full(x.shape, -np.inf)
            a, b = [slice(None)] * 3, [slice(None)] * 3
            a[ax], b[ax] = (slice(1, None), slice(None, -1)) if s > 0 else (slice(None, -1), slice(1, None))
            n[tuple(a)] = x[tuple(b)]
            out &= x >= n
    return out


@check.facet("threshold", R(c=cube, level=st.one_of(floats(0.001, 1.0), st.just(1.0)), norm=st.booleans(), peak=st.booleans(), set=st.booleans()), quick=250, thorough=15000, rule="some but not all cells exceed the threshold")
def threshold(c, r):
    cu, x, angles, doppler, ranges = build(c["c"])
    lo, hi = x.min(), x.max()
    level = c["level"] if c["norm"] else c["level"] * max(hi, 1e-12) * 1.2
    if c["set"]:
        det = ThresholdDetector(1.0, c["norm"], not c["peak"])
        det.min_power = level
        det.peak_detection = c["peak"]
    else:
        det = ThresholdDetector(level, c["norm"], c["peak"])
    r.equal((det.min_power, det.normalize, det.peak_detection), (level, c["norm"], c["peak"]), "detector configuration")
    # relative powers between zero and one
    rel = (x - lo) / (hi - lo) if c["norm"] and hi > lo else (np.zeros_like(x) if c["norm"] else x)
    cand = peaks(x) if c["peak"] else np.ones(x.shape, bool)
    tol = 1e-12 * max(1.0, level)
    sure, maybe = rel >= level + tol, np.abs(rel - level) < tol
    if c["norm"] and hi > lo and level == 1.0:
        sure, maybe = x == hi, np.zeros(x.shape, bool)  # the maximum is exactly one
    cloud = det.detect(cu)
    sel = np.argwhere(sure & cand)
    compare(r, cloud, x, angles, doppler, ranges, c["c"]["fc"], [tuple(i) for i in sel], "threshold", [tuple(i) for i in np.argwhere(maybe & cand)])
    r.nontrivial(0 < len(sel) < x.size)
    r.cls("peaks dropped", c["peak"] and np.any(sure & ~cand))
    r.cls("noise floor removed", c["norm"] and lo > 0)
    r.equal(cu.data, x, "detection modifies the cube")


@check.facet("maximum", R(c=cube), quick=150, thorough=8000, rule="the cube is not constant")
def maximum(c, r):
    cu, x, angles, doppler, ranges = build(c["c"])
    cloud = MaxDetector().detect(cu)
    if x.max() <= 0:
        r.equal(cloud.num_points, 0, "detections of silence")
        r.close(cloud.max_range, ranges.max(), "range represented by the point cloud")
        return
    r.nontrivial(x.max() > x.min())
    r.equal(cloud.num_points, 1, "number of maxima")
    best = [tuple(i) for i in np.argwhere(x == x.max())]
    r.cls("off-axis maximum", c["c"]["A"] > 1)
    compare(r, cloud, x, angles, doppler, ranges, c["c"]["fc"], [], "maximum", best)


cfar = R(
    seed=seeds, A=st.integers(1, 3), t=st.tuples(st.integers(1, 3), st.integers(1, 3)), g=st.tuples(st.integers(0, 2), st.integers(0, 2)), extra=st.tuples(st.integers(0, 5), st.integers(0, 5)),
    pfa=st.one_of(logfloats(1e-6, 0.99)), scale=logfloats(1e-6, 1e6), targets=st.integers(0, 3), fc=logfloats(1e8, 1e11),
)


@check.facet("cfar", cfar, quick=80, thorough=4000, rule="some cells are detected and others are not")
def cfar_detect(c, r):
    g = np.random.default_rng(c["seed"])
    (tx, ty), (gx, gy) = c["t"], c["g"]
    wx, wy = tx + gx, ty + gy
    D, N = 2 * wx + 1 + c["extra"][0], 2 * wy + 1 + c["extra"][1]
    x = g.exponential(size=(c["A"], D, N))
    for _ in range(c["targets"]):
        x[g.integers(c["A"]), g.integers(D), g.integers(N)] += 10 ** g.uniform(1, 6)
    x *= c["scale"]
    angles = np.stack([g.uniform(-np.pi, np.pi, c["A"]), g.uniform(0, np.pi, c["A"])], axis=1)
    doppler, ranges = np.sort(g.normal(size=D)) * 1e3, np.arange(N) * 1.5
    det = CFARDetector(tuple(c["t"]), tuple(c["g"]), c["pfa"])
    cloud = det.detect(RadarCube(x.copy(), angles, doppler, ranges, c["fc"]))
    # cell averaging over the surrounding training cells inside the cube
    sure, maybe = [], []
    for i in np.ndindex(*x.shape):
        tot, n = 0.0, 0
        for dx in range(-wx, wx + 1):
            for dy in range(-wy, wy + 1):
                if abs(dx) <= gx and abs(dy) <= gy:
                    continue
                a, b = i[1] + dx, i[2] + dy
                if 0 <= a < D and 0 <= b < N:
                    tot += x[i[0], a, b]
                    n += 1
        thr = n * (c["pfa"] ** (-1 / n) - 1) * (tot / n)
        if abs(x[i] - thr) <= 1e-9 * (abs(thr) + x[i]):
            maybe.append(i)
        elif x[i] > thr:
            sure.append(i)
    r.nontrivial(0 < len(sure) < x.size)
    r.cls("guarded", gx + gy > 0)
    compare(r, cloud, x, angles, doppler, ranges, c["fc"], sure, "cfar", maybe)
    # the false alarm rate does not depend on the noise power
    again = det.detect(RadarCube(x * 1024.0, angles, doppler, ranges, c["fc"]))
    if not maybe:
        r.equal(again.num_points, cloud.num_points, "detections depend on the noise power")
    small = x[:, : 2 * wx, :]
    try:
        det.detect(RadarCube(small, angles, doppler[: 2 * wx], ranges, c["fc"]))
    except ValueError:
        pass
    else:
        r.fail("windows exceeding the cube are not refused")


@check.facet("alarm rate", R(seed=seeds, pfa=st.sampled_from([0.3, 0.1, 0.03]), t=st.tuples(st.integers(1, 3), st.integers(1, 4)), g=st.tuples(st.integers(0, 1), st.integers(0, 1))), quick=12, thorough=200, rule="always")
def alarm_rate(c, r):
    # exponentially distributed powers: the probability of exceeding the threshold is pfa for every cell
    g = np.random.default_rng(c["seed"])
    x = g.exponential(size=(1, 120, 200))
    n = CFARDetector(tuple(c["t"]), tuple(c["g"]), c["pfa"]).detect(RadarCube(x, None, np.arange(120.0), np.arange(200.0), 1e9)).num_points / x.size
    r.nontrivial()
    # neighbouring decisions share training cells: generous deviation
    sd = np.sqrt(c["pfa"] * (1 - c["pfa"]) / x.size)
    r.check(abs(n - c["pfa"]) <= 12 * sd, f"false alarm rate {n} instead of {c['pfa']}")


@check.facet("cube", R(c=cube, bad=st.integers(0, 4), infer=st.booleans(), drop=st.booleans()), quick=120, thorough=6000, rule="several bins in each dimension")
def cubes(c, r):
    cu, x, angles, doppler, ranges = build(c["c"])
    fc = c["c"]["fc"]
    r.nontrivial(min(x.shape) > 1)
    r.equal(cu.data, x, "cube data")
    r.equal(cu.angle_bins, angles, "angle bins")
    r.equal(cu.doppler_bins, doppler, "doppler bins")
    r.equal(cu.range_bins, ranges, "range bins")
    r.close(cu.carrier_frequency, fc, "carrier frequency")
    r.close(cu.velocity_bins, doppler * C / fc, "velocity bins", rtol=1e-12)
    args = [angles, doppler, ranges]
    if c["bad"] < 3:
        args[c["bad"]] = np.concatenate([args[c["bad"]], args[c["bad"]][:1]])
        try:
            RadarCube(x, *args, fc)
        except ValueError:
            pass
        else:
            r.fail("bins not matching the cube are accepted")
    for k, known in ((0, x.shape[0] == 1), (1, x.shape[1] == 1)):
        args = [angles, doppler, ranges]
        args[k] = None
        try:
            inferred = RadarCube(x, *args, fc)
        except ValueError:
            r.check(not known, "bins of single angles or velocities can not be inferred")
        else:
            r.check(known, "bins are inferred for several angles or velocities")
            r.equal(np.asarray((inferred.angle_bins, inferred.doppler_bins)[k]).ravel().tolist(), [0.0] * (2 - k), "inferred bins")
    r.equal(RadarCube(x, angles, doppler, None, fc).range_bins, np.arange(x.shape[2], dtype=float), "inferred range bins")
    try:
        RadarCube(x, angles, doppler, ranges, 0.0).velocity_bins
    except RuntimeError:
        pass
    else:
        r.fail("velocities without a carrier frequency")
    if x.max() > 0:
        cu.normalize_power()
        r.close(cu.data, x / x.max(), "normalized power", rtol=1e-12)
    if c["drop"] and c["c"]["seed"] % 4 == 0:
        # profiles are the powers summed over all other dimensions
        cu = RadarCube(x, angles, doppler, ranges, fc)
        for plot, bins, prof in ((cu.plot_range, ranges, x.sum((0, 1))), (cu.plot_velocity, doppler * C / fc, x.sum((0, 2)))):
            vis = plot.visualize()
            line = vis.lines[0, 0][0]
            r.close(np.asarray(line.get_xdata(), float), bins, "profile axis", rtol=1e-9)
            r.close(np.asarray(line.get_ydata(), float), prof, "profile", rtol=1e-9)
            plt.close("all")


@check.facet("cloud", R(seed=seeds, n=st.integers(0, 6), max=floats(0.0, 100.0), show=st.booleans()), quick=60, thorough=3000, rule="more than one point")
def clouds(c, r):
    g = np.random.default_rng(c["seed"])
    cl = RadarPointCloud(c["max"])
    r.nontrivial(c["n"] > 1)
    pts = []
    for _ in range(c["n"]):
        ze, az, d, v, p = g.uniform(0, np.pi), g.uniform(-np.pi, np.pi), g.uniform(0, 100), g.normal() * 10, g.uniform(1e-6, 10)
        q = PointDetection.FromSpherical(ze, az, d, v, p)
        n = np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])
        r.close(q.position, d * n, "position of spherical coordinates", rtol=1e-9, scale=100)
        r.close(q.velocity, v * n, "velocity of spherical coordinates", rtol=1e-9, scale=100)
        r.close(q.power, p, "power of a detection")
        twin = PointDetection(d * n, v * n, p)
        r.check(PointDetection(twin.position.copy(), twin.velocity.copy(), p) == twin, "identical detections are unequal")
        for other in (PointDetection(d * n + np.eye(3)[g.integers(3)], v * n, p), PointDetection(d * n, v * n - np.eye(3)[g.integers(3)], p), PointDetection(d * n, v * n, 2 * p)):
            r.check(not (other == twin), "different detections are equal")
        cl.add_point(q)
        pts.append(q)
    r.equal(cl.num_points, c["n"], "number of points")
    r.check(all(a is b for a, b in zip(cl.points, pts)), "points of the cloud")
    r.close(cl.max_range, c["max"], "represented range")
    for pos, vel, p in ((np.zeros(2), np.zeros(3), 1.0), (np.zeros(3), np.zeros(4), 1.0), (np.zeros((1, 3)), np.zeros(3), 1.0), (np.zeros(3), np.zeros(3), 0.0), (np.zeros(3), np.zeros(3), -1.0)):
        try:
            PointDetection(pos, vel, p)
        except ValueError:
            continue
        r.fail("invalid detections are accepted")
    if c["show"] and c["seed"] % 3 == 0:
        vis = cl.visualize()
        got = np.array(vis.paths[0]._verts3d if hasattr(vis.paths[0], "_verts3d") else vis.paths[0].get_data_3d(), float)
        r.close(got, np.array([q.position for q in pts]).reshape(-1, 3).T, "visualized points")
        plt.close("all")
