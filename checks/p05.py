"""P05 antenna arrays."""
import numpy as np
from hypothesis import strategies as st
from scipy.constants import speed_of_light

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import Transformation, Direction, Transformable, Signal, AntennaMode, IdealAntenna, LinearAntenna, PatchAntenna, Dipole, UniformArray, CustomAntennaArray
from hermespy.simulation import SimulatedIdealAntenna, SimulatedLinearAntenna, SimulatedPatchAntenna, SimulatedDipole, SimulatedUniformArray, SimulatedCustomArray

check = Check("P05", "Antenna arrays report geometry, phases and patterns of their physical pose")

PI = np.pi
MODES = [AntennaMode.TX, AntennaMode.RX, AntennaMode.DUPLEX]
PLAIN = [IdealAntenna, LinearAntenna, PatchAntenna, Dipole]
SIM = [SimulatedIdealAntenna, SimulatedLinearAntenna, SimulatedPatchAntenna, SimulatedDipole]

angle = st.one_of(floats(-PI, PI), st.sampled_from([0.0, PI / 2, PI]))
rpy = st.lists(angle, min_size=3, max_size=3)
vec = st.lists(floats(-5, 5), min_size=3, max_size=3)
element = R(kind=st.integers(0, 3), mode=st.integers(0, 2), slant=angle, rpy=rpy, pos=vec, w=st.tuples(floats(0.1, 2.0), angle))


def nd(x):
    return np.asarray(x).view(np.ndarray)


def T(a, p):
    return Transformation.From_RPY(np.array(a, float), np.array(p, float))


def make_element(c, sim):
    pose = T(c["rpy"], c["pos"])
    cls = (SIM if sim else PLAIN)[c["kind"]]
    kw = dict(weight=c["w"][0] * np.exp(1j * c["w"][1])) if sim else {}
    if c["kind"] == 1:
        return cls(MODES[c["mode"]], c["slant"], pose, **kw)
    return cls(MODES[c["mode"]], pose, **kw)


def pattern(c, az, ze):
    """Documented field patterns (vertical, horizontal) in the element's own frame."""
    if c["kind"] == 0:
        return np.array([2**-0.5, 2**-0.5])
    if c["kind"] == 1:
        return np.array([np.cos(c["slant"]), np.sin(c["slant"])])
    if c["kind"] == 2:
        return np.array([max(0.1, (0.1 + 0.9 * np.exp(-1.315 * az**2)) * np.cos(ze) ** 2), 0.0])
    if abs(np.sin(ze)) < 1e-6:
        return np.array([PI / 4 * abs(np.sin(ze)), 0.0])
    return np.array([np.cos(PI / 2 * np.cos(ze)) / np.sin(ze), 0.0])


def basis(d):
    """Unit vectors of increasing zenith and azimuth for a cartesian direction."""
    az, ze = np.arctan2(d[1], d[0]), np.arccos(np.clip(d[2], -1, 1))
    return (
        az, ze,
        np.array([np.cos(ze) * np.cos(az), np.cos(ze) * np.sin(az), -np.sin(ze)]),
        np.array([-np.sin(az), np.cos(az), 0.0]),
    )


def ref_characteristics(c, rot, d):
    """Field of the element rotated by `rot` towards global direction `d`: components along the global zenith
    and azimuth directions of the rotated local field vector."""
    az, ze, tl, pl = basis(rot.T @ d)
    f = pattern(c, az, ze)
    E = rot @ (f[0] * tl + f[1] * pl)
    _, _, tg, pg = basis(d)
    return np.array([tg @ E, pg @ E])


def near_singular(c, rot, d):
    """Directions where an infinitesimal change alters the reference's discontinuous angles."""
    l = rot.T @ d
    if np.hypot(l[0], l[1]) < 1e-5 or np.hypot(d[0], d[1]) < 1e-5:
        return True
    return c["kind"] == 2 and abs(abs(np.arctan2(l[1], l[0])) - PI) < 1e-6


@check.facet(
    "array",
    R(
        els=st.lists(element, min_size=1, max_size=5),
        sim=st.booleans(),
        arr=rpy, arrp=vec, dev=rpy, devp=vec,
        az=angle, ze=floats(0.0, PI), dist=logfloats(0.5, 1e4),
        fc=logfloats(1e7, 1e10),
        steps=st.lists(st.sampled_from(["arr", "dev", "element", "arrpos"]), max_size=3),
        seed=seeds,
        base=st.booleans(),
    ),
    quick=600, thorough=30000, shards=2,
    rule="several antennas of differing modes on a rotated array",
)
def array(c, r):
    """Custom arrays, mounted on a moving device, against element positions computed by matrix products."""
    g = np.random.default_rng(c["seed"])
    els = [make_element(e, c["sim"]) for e in c["els"]]
    cfg = [dict(e) for e in c["els"]]
    A = T(c["arr"], c["arrp"])
    arr = (SimulatedCustomArray if c["sim"] else CustomAntennaArray)(els, A)
    D = T(c["dev"], c["devp"])
    dev = Transformable(D)
    if c["base"]:
        arr.set_base(dev)
    else:
        D = Transformation.No()
    A, D = nd(A).copy(), nd(D).copy()
    r.nontrivial(len(els) >= 2 and len({e["mode"] for e in cfg}) > 1 and np.abs(np.array(c["arr"])).max() > 0.01)

    def verify():
        sel = {m: [k for k, e in enumerate(cfg) if m == AntennaMode.DUPLEX or MODES[e["mode"]] in (m, AntennaMode.DUPLEX)] for m in MODES}
        r.equal((arr.num_antennas, arr.num_transmit_antennas, arr.num_receive_antennas), (len(cfg), len(sel[AntennaMode.TX]), len(sel[AntennaMode.RX])), "number of antennas")
        r.check(list(arr.antennas) == els, "antennas in order")
        r.check(list(arr.transmit_antennas) == [els[k] for k in sel[AntennaMode.TX]], "transmitting antennas")
        r.check(list(arr.receive_antennas) == [els[k] for k in sel[AntennaMode.RX]], "receiving antennas")
        P = np.array([e["pos"] for e in cfg], float)
        for name, m in (("topology", AntennaMode.DUPLEX), ("transmit_topology", AntennaMode.TX), ("receive_topology", AntennaMode.RX)):
            r.close(nd(getattr(arr, name)), P[sel[m]].reshape(-1, 3), f"{name} in the local frame", rtol=0, atol=1e-8)
        G = D @ A
        r.close(nd(arr.global_position), G[:3, 3], "global position of the array", rtol=0, atol=1e-8)
        r.close(np.array([nd(e.global_position) for e in els]), P @ G[:3, :3].T + G[:3, 3], "global positions of the elements", rtol=0, atol=1e-8)
        # Far-field and near-field phases
        k0 = 2 * PI * c["fc"] / speed_of_light
        az, ze = c["az"], c["ze"]
        u = np.array([np.sin(ze) * np.cos(az), np.sin(ze) * np.sin(az), np.cos(ze)])
        tgt = c["dist"] * u
        for m in MODES:
            Pm = P[sel[m]].reshape(-1, 3)
            tol = 1e-7 + 1e-9 * k0 * (c["dist"] + 20)
            r.close(arr.spherical_phase_response(c["fc"], az, ze, m), np.exp(1j * k0 * Pm @ u), "far field phases", rtol=0, atol=tol)
            r.close(arr.horizontal_phase_response(c["fc"], az, PI / 2 - ze, m), np.exp(1j * k0 * Pm @ u), "far field phases by elevation", rtol=0, atol=tol)
            ref = np.exp(-1j * k0 * np.linalg.norm(Pm - tgt, axis=1))
            r.close(arr.cartesian_phase_response(c["fc"], tgt, "local", m), ref, "phases of a local position", rtol=0, atol=tol)
            gt = G[:3, :3] @ tgt + G[:3, 3]
            r.close(arr.cartesian_phase_response(c["fc"], gt, "global", m), ref, "phases of a global position", rtol=0, atol=tol)
            # Polarisation towards a direction and a position, in both frames
            gd = G[:3, :3] @ u
            rots = []
            for k in sel[m]:
                e = cfg[k]
                rots.append(G[:3, :3] @ nd(T(e["rpy"], e["pos"]))[:3, :3])
            if any(near_singular(cfg[k], rot, gd) for k, rot in zip(sel[m], rots)):
                continue
            ch = np.array([ref_characteristics(cfg[k], rot, gd) for k, rot in zip(sel[m], rots)]).reshape(-1, 2)
            for what, arg, frame in (
                ("global direction", Direction.From_Cartesian(gd, True), "global"),
                ("local direction", Direction.From_Cartesian(u, True), "local"),
                ("global position", gt, "global"),
                ("local position", tgt, "local"),
            ):
                r.close(arr.characteristics(arg, m, frame), ch, f"field pattern towards a {what}", rtol=0, atol=1e-5)
            for frame, t in (("local", tgt), ("global", gt)):
                r.close(arr.cartesian_array_response(c["fc"], t, frame, m), ref[:, None] * ch, f"array response, {frame}", rtol=0, atol=1e-5 + tol)

    verify()
    for s in c["steps"]:
        a, p = g.uniform(-PI, PI, 3), g.uniform(-5, 5, 3)
        if s == "arr":
            arr.pose = T(a, p)
            A = nd(T(a, p)).copy()
        elif s == "arrpos":
            arr.position = p
            A = A.copy()
            A[:3, 3] = p
        elif s == "dev":
            dev.pose = T(a, p)
            if c["base"]:
                D = nd(T(a, p)).copy()
        else:
            k = int(g.integers(0, len(els)))
            els[k].pose = T(a, p)
            els[k].mode = MODES[int(g.integers(0, 3))]
            cfg[k].update(rpy=list(a), pos=list(p), mode=MODES.index(els[k].mode))
        r.cls("moved-" + s)
        verify()
    # Immutable state of the array mounted on a base of given pose
    B = T(g.uniform(-PI, PI, 3), g.uniform(-5, 5, 3))
    state = arr.state(B)
    P = np.array([e["pos"] for e in cfg], float)
    G = nd(B) @ A
    r.close(np.array([nd(a.global_position) for a in state.antennas]), P @ G[:3, :3].T + G[:3, 3], "state: global element positions", rtol=0, atol=1e-8)
    r.close(nd(state.topology), P, "state: topology", rtol=0, atol=1e-8)
    r.close(nd(state.forwards_transformation), G, "state: pose", rtol=0, atol=1e-8)
    r.equal([a.mode for a in state.antennas], [MODES[e["mode"]] for e in cfg], "state: antenna modes")
    r.equal([type(a) for a in state.antennas], [type(a) for a in els], "state: antenna types")
    if c["sim"]:
        r.close(np.array([a.weight for a in state.antennas]), np.array([e["w"][0] * np.exp(1j * e["w"][1]) for e in cfg]), "state: weights")
    r.equal(len(state), len(els), "state: length")
    for m in MODES:
        sel = [k for k, e in enumerate(cfg) if m == AntennaMode.DUPLEX or MODES[e["mode"]] in (m, AntennaMode.DUPLEX)]
        if not sel:
            continue
        pick = [int(x) for x in g.integers(0, len(sel), int(g.integers(1, 4)))]
        pick = list(dict.fromkeys(pick))
        lo = int(g.integers(0, len(sel)))
        for idx, exp in ((pick, [sel[k] for k in pick]), (pick[0], [sel[pick[0]]]), (slice(lo, None), sel[lo:])):
            sub = arr.state(B).select_subarray(idx, m)
            r.close(nd(sub.topology), P[exp].reshape(-1, 3), f"subarray {idx}", rtol=0, atol=1e-8)
            r.close(np.array([nd(a.global_position) for a in sub.antennas]), P[exp] @ G[:3, :3].T + G[:3, 3], "subarray: global positions", rtol=0, atol=1e-8)
    sub = arr.state(B)[0:2]
    r.close(nd(sub.topology), P[0:2], "indexed subarray", rtol=0, atol=1e-8)
    # The array itself is unaffected by its states
    verify()


@check.facet(
    "uniform",
    R(el=element, sim=st.booleans(), dims=st.lists(st.integers(1, 4), min_size=1, max_size=3), spacing=logfloats(1e-3, 10.0), pose=st.booleans(), arr=rpy, arrp=vec, ndims=st.lists(st.integers(1, 3), min_size=1, max_size=3), nspacing=logfloats(1e-3, 10.0), az=angle, ze=floats(0.0, PI), fc=logfloats(1e7, 1e10), cls_=st.booleans(), seed=seeds, nsamp=st.integers(1, 6)),
    quick=300, thorough=12000,
    rule="more than one antenna",
)
def uniform(c, r):
    el = make_element(c["el"], c["sim"])
    cls = SimulatedUniformArray if c["sim"] else UniformArray
    pose = T(c["arr"], c["arrp"]) if c["pose"] else None
    kind = c["el"]
    if c["cls_"]:
        el = (SIM if c["sim"] else PLAIN)[c["el"]["kind"]]
        kind = dict(c["el"], mode=2, slant=0.0, rpy=[0, 0, 0], w=[1.0, 0.0])
    arr = cls(el, c["spacing"], c["dims"], pose)

    def verify(dims, spacing):
        d = list(dims) + [1] * (3 - len(dims))
        r.equal(tuple(arr.dimensions), tuple(d), "dimensions")
        n = int(np.prod(d))
        r.nontrivial(n > 1)
        r.equal(arr.num_antennas, n, "number of antennas")
        r.equal(len(arr.antennas), n, "number of antennas")
        top = nd(arr.topology)
        r.equal(top.shape, (n, 3), "topology shape")
        idx = top / spacing
        k = np.round(idx)
        r.close(idx, k, "elements on a regular grid", rtol=0, atol=1e-6)
        r.equal(sorted(map(tuple, k.astype(int).tolist())), sorted((x, y, z) for x in range(d[0]) for y in range(d[1]) for z in range(d[2])), "every grid position occupied once")
        m = MODES[kind["mode"]]
        r.equal((arr.num_transmit_antennas, arr.num_receive_antennas), (0 if m == AntennaMode.RX else n, 0 if m == AntennaMode.TX else n), "modes of elements")
        if sum(x > 1 for x in d) == 1:
            r.cls("linear array")
            ax = [x > 1 for x in d].index(True)
            r.close(top[:, ax], spacing * np.arange(n), "elements of a linear array in order", rtol=1e-6)
            az, ze = c["az"], c["ze"]
            u = np.array([np.sin(ze) * np.cos(az), np.sin(ze) * np.sin(az), np.cos(ze)])
            ph = arr.spherical_phase_response(c["fc"], az, ze)
            step = 2 * PI * c["fc"] * spacing * u[ax] / speed_of_light
            r.close(ph, np.exp(1j * step * np.arange(n)), "steering vector of a linear array", rtol=0, atol=1e-6 + 1e-9 * abs(step) * n + 1e-7 * c["fc"] / speed_of_light)
        G = nd(pose) if pose is not None else np.eye(4)
        pos = np.array([nd(a.global_position) for a in arr.antennas])
        r.close(pos, top @ G[:3, :3].T + G[:3, 3], "elements mounted on the array", rtol=0, atol=1e-6)
        for a in arr.antennas:
            rot = G[:3, :3] @ nd(T(kind["rpy"], [0, 0, 0]))[:3, :3]
            r.close(nd(a.forwards_transformation)[:3, :3], rot, "element orientation", rtol=0, atol=1e-8)
            r.close(a.local_characteristics(0.3, 1.1), pattern(kind, 0.3, 1.1), "element pattern")
            if c["sim"]:
                r.close(np.asarray(a.weight), np.asarray(kind["w"][0] * np.exp(1j * kind["w"][1])), "element weight")

    verify(c["dims"], c["spacing"])
    r.close(np.asarray(arr.spacing), np.asarray(c["spacing"]), "spacing")
    arr.spacing = c["nspacing"]
    verify(c["dims"], c["nspacing"])
    arr.dimensions = tuple(c["ndims"])
    verify(c["ndims"], c["nspacing"])
    if len(c["ndims"]) == 1:
        arr.dimensions = c["ndims"][0]
        verify(c["ndims"], c["nspacing"])
    for bad in (0.0, -c["spacing"]):
        try:
            arr.spacing = bad
        except ValueError:
            pass
        else:
            r.fail("non-positive spacing is refused")
    try:
        arr.dimensions = (1, 1, 1, 1)
    except ValueError:
        pass
    else:
        r.fail("four-dimensional arrays are refused")
    verify(c["ndims"], c["nspacing"])
    if c["sim"]:
        for mode, fn in ((AntennaMode.TX, arr.transmit), (AntennaMode.RX, arr.receive)):
            n = arr.num_transmit_antennas if mode == AntennaMode.TX else arr.num_receive_antennas
            if not n:
                continue
            x = cmat(c["seed"], n, c["nsamp"])
            s = Signal.Create(x.copy(), 1e6, c["fc"], delay=0.25)
            y = fn(s)
            w = kind["w"][0] * np.exp(1j * kind["w"][1])
            r.close(nd(y.to_dense())[:, :], w * x, "antenna weights are applied to their streams", rtol=1e-9)
            r.close(nd(s.to_dense())[:, :], x, "the feeding signal is not altered")
            r.equal((y.sampling_rate, y.carrier_frequency, y.delay), (1e6, c["fc"], 0.25), "signal parameters")
            try:
                fn(Signal.Create(cmat(c["seed"], n + 1, 2), 1e6, c["fc"]))
            except ValueError:
                pass
            else:
                r.fail("signals of mismatching streams are refused")


@check.facet(
    "weights",
    R(els=st.lists(element, min_size=1, max_size=4), fc=logfloats(1e7, 1e9), seed=seeds, n=st.integers(1, 6), aoi=st.lists(st.tuples(angle, floats(0, PI)), min_size=1, max_size=4), ones=st.booleans()),
    quick=200, thorough=8000,
    rule="several antennas with differing weights",
)
def weights(c, r):
    """Individual antenna weights of simulated arrays and the resulting array pattern."""
    els = [make_element(e, True) for e in c["els"]]
    arr = SimulatedCustomArray(els)
    r.nontrivial(len(els) > 1)
    for mode, fn, side in ((AntennaMode.TX, arr.transmit, 1), (AntennaMode.RX, arr.receive, 0)):
        sel = [e for e in c["els"] if MODES[e["mode"]] in (mode, AntennaMode.DUPLEX)]
        if not sel:
            continue
        w = np.array([e["w"][0] * np.exp(1j * e["w"][1]) for e in sel])
        x = cmat(c["seed"], len(sel), c["n"])
        y = fn(Signal.Create(x.copy(), 1e6, c["fc"]))
        r.close(nd(y.to_dense()), w[:, None] * x, "each stream weighted by its antenna", rtol=1e-9)
        P = np.array([e["pos"] for e in sel])
        b = cmat(c["seed"] + 1, 1, len(sel))[0]
        pw = arr.calculate_power(c["fc"], mode, None if c["ones"] else b, aoi=np.array(c["aoi"]))
        for (az, ze), p in zip(c["aoi"], np.asarray(pw).reshape(-1)):
            u = np.array([np.sin(ze) * np.cos(az), np.sin(ze) * np.sin(az), np.cos(ze)])
            ref = abs(np.sum(w * np.exp(2j * PI * c["fc"] / speed_of_light * P @ u) * (1.0 if c["ones"] else b))) ** 2
            r.close(np.asarray(p), np.asarray(ref), "array pattern", rtol=1e-6, scale=np.sum(np.abs(w)) ** 2 + np.sum(np.abs(w * b)) ** 2)
