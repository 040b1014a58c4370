"""C05: derived fields are consistent in every order of access."""

import itertools

import numpy as np

from mc import util

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of access histories of the lazily evaluated fields against independently computed field values"
RULE = ("alphabet: all field accessors and shortcuts of a state; histories: all ordered pairs on every kind of state and all ordered triples (thorough: quadruples of "
        "the memoized fields), every access of every history compared. states = distinct sets of fields accessed so far, transitions = accesses; single accesses at the default and a finer resolution")
ASSUMPTIONS = ["spharm transforms (third party) are trusted and used by the reference", "fields that depend on wave activity, zonalization and waveguides are "
               "compared with the diagnostic functions they are named for (decided themselves by C15-C19)"]

FIELDS = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vo", "vorticity_spectral", "enstrophy",
          "eddy_enstrophy", "energy", "pv_zonalized", "fawa", "falwa", "falwa_filtered", "v_envelope_hilbert", "stationary_wavenumber", "waveguides"]
HEAVY = {"pv_zonalized", "fawa", "falwa", "falwa_filtered"}
MEMO = ["pv", "pv_spectral", "u", "v", "streamfunction", "falwa", "pv_zonalized", "vorticity_spectral", "pv_flux_spectral"]
KINDS = ["pv", "pv_spectral", "from_wind", "from_vorticity", "euler", "leapfrog", "run", "init", "add", "dataset"]
WORLDS = [(45., "slow", None), (30., "tiny", None), (36., "retro", 3), (45., "faint", None), (45., "fierce", None), (45., "still", None)]
FINE = [(2.5, "earth", None), (2., "slow", None)]


def units(tier):
    out = [["pairs", w, k] for w in range(len(WORLDS)) for k in KINDS]
    out += [["triples", w, k, a] for w in ((0,) if tier == "quick" else range(len(WORLDS))) for k in ("pv", "pv_spectral", "run") for a in range(len(FIELDS))]
    out += [["values", w] for w in range(len(WORLDS))]
    out += [["singles", w, k] for w in range(-len(FINE), 0) for k in KINDS]
    if tier == "thorough":
        out += [["quads", w, k, a] for w in range(len(WORLDS)) for k in ("pv", "pv_spectral") for a in range(len(MEMO))]
    return out


class Ctx:
    def __init__(self, w):
        import barotropic as bt
        self.bt = bt
        self.res, self.planet, self.nt = WORLDS[w] if w >= 0 else FINE[w]
        self.grid = util.grid(self.res, self.planet, self.nt)
        self.r, self.om = util.PLANETS[self.planet]
        self.nlat, self.nlon = util.dims(self.res)
        self.sp = util.spharm_for(self.res, self.planet)
        self.ntr = self.nlat - 1 if self.nt is None else self.nt
        lat, lon = util.coords(self.res)
        self.phi = np.deg2rad(lat)
        self.f = np.repeat((2. * self.om * np.sin(self.phi))[:, None], self.nlon, axis=1)
        self.scale = util.rate(self.om)
        self.zeta = self.scale * (util.wavy(self.res, [(2, 1, "c", .6), (1, 0, "c", .8), (2, 2, "s", .5), (1, 1, "s", -.4), (2, 0, "c", -.3)]))
        self.model = bt.BarotropicModel(lambda s: 0.1 * self.scale * s.pv, diffusion_coeff=0.)
        self.dt = 0.2 / self.scale

    def make(self, kind):
        bt, g = self.bt, self.grid
        if kind == "pv":
            return bt.State(g, 10., pv=self.f + self.zeta)
        if kind == "pv_spectral":
            return bt.State(g, 10., pv_spectral=self.sp.grdtospec(self.f + self.zeta, self.ntr))
        if kind == "from_wind":
            return bt.State.from_wind(g, util.T0, self.scale * self.r * np.cos(self.phi)[:, None] * (1. + 0.2 * np.cos(g.lam2)), self.scale * self.r * 0.3 * np.sin(2 * g.lam2) * np.cos(self.phi)[:, None]**2)
        if kind == "from_vorticity":
            return bt.State.from_vorticity(g, 10., self.zeta[:, ::-1])
        if kind == "init":
            return bt.init.held_1985(g, 0., A=.4 * self.scale * self.r, B=.5 * self.scale * self.r, C=3. * self.scale * self.r)
        s = bt.State(g, 10., pv=self.f + self.zeta)
        if kind == "euler":
            return self.model.euler(s, self.dt)
        if kind == "leapfrog":
            return self.model.leapfrog(s, self.model.euler(s, self.dt))[0]
        if kind == "run":
            return self.model.run(s, self.dt, 10. + 3 * self.dt, save_every=self.dt)[1][2]
        if kind == "add":
            return s.add_wind(self.make("init")).add_vorticity(self.zeta)
        if kind == "dataset":
            return bt.io.from_dataset(bt.io.as_dataset(s, fields=["pv"]), grid_kwargs={"rsphere": self.r, "omega": self.om, "ntrunc": self.nt})[0]
        raise ValueError(kind)

    def reference(self, kind):
        """All fields from the PV of a freshly made state."""
        bt, g, sp = self.bt, self.grid, self.sp
        # Spectral coefficients are the primary data (the two highest degrees of
        # a model state are not fully determined by its gridded PV)
        fs = sp.grdtospec(self.f, self.ntr)
        qs = np.array(self.make(kind).pv_spectral, dtype=np.complex64)
        pv = sp.spectogrd(qs).astype(float)
        zs = qs - fs
        u, v = sp.getuv(zs, np.zeros_like(zs))
        n = np.array([nn for m in range(self.ntr + 1) for nn in range(m, self.ntr + 1)], dtype=float)
        ps = np.zeros(zs.shape, dtype=complex)
        ps[1:] = -zs[1:] * self.r**2 / (n * (n + 1.))[1:]
        psi = sp.spectogrd(ps.astype(np.complex64))
        div = sp.getvrtdivspec(pv * u, pv * v, self.ntr)[1]
        d = bt.diagnostics
        fresh = lambda: bt.State(g, 0., pv_spectral=qs.copy())
        ref = {
            "pv": pv, "avo": pv, "pv_spectral": qs, "u": u, "v": v, "streamfunction": psi, "pv_flux_spectral": div,
            "vorticity": pv - self.f, "vo": pv - self.f, "vorticity_spectral": zs, "enstrophy": 0.5 * pv**2,
            "eddy_enstrophy": 0.5 * (pv - pv.mean(axis=1, keepdims=True))**2, "energy": 0.5 * (u.astype(float)**2 + v.astype(float)**2),
            "pv_zonalized": g.zonalize(pv), "falwa": d.falwa(pv, g), "fawa": d.fawa(pv, g),
            "falwa_filtered": d.filter_by_wavenumber(d.falwa(pv, g), 2 * d.dominant_wavenumber_fourier(v, g)),
            "v_envelope_hilbert": d.envelope_hilbert(v, (2, 10)),
            "stationary_wavenumber": d.stationary_wavenumber(fresh()),
        }
        self.k = 1.
        ref["waveguides"] = np.array(d.extract_ks_waveguides(ref["stationary_wavenumber"], self.k, g), dtype=float).reshape(-1, 2)
        speed = np.max(np.abs(u)) + np.max(np.abs(v))
        qmax = np.max(np.abs(pv))
        zmax = np.max(np.abs(pv - self.f))
        self.tol = {
            "u": 2e-5 * speed, "v": 2e-5 * speed, "streamfunction": 2e-5 * speed * self.r, "energy": 4e-5 * speed**2,
            "pv_flux_spectral": 2e-4 * qmax * speed / self.r, "enstrophy": 2e-5 * qmax**2, "eddy_enstrophy": 2e-5 * qmax**2,
            "fawa": 5e-5 * qmax * self.r, "falwa": 5e-5 * qmax * self.r, "falwa_filtered": 5e-5 * qmax * self.r,
            "v_envelope_hilbert": 2e-5 * speed, "waveguides": 0.5, "stationary_wavenumber": None,
        }
        self.deftol = 1e-5 * qmax
        return ref

    def compare(self, rec, state, name, ref, case):
        if name == "waveguides":
            got = np.array(state.extract_ks_waveguides(self.k), dtype=float).reshape(-1, 2)
        else:
            got = getattr(state, name)
        want = ref[name]
        tol = self.tol.get(name, self.deftol)
        if name == "stationary_wavenumber":
            # Ks is sensitive where PV gradient or wind are small: compare squares, cut off
            cut = lambda x: np.clip(np.real(np.asarray(x)**2), -50., 50.)
            rec.ok(np.asarray(got).shape == want.shape and np.asarray(got).dtype.kind == "c", case, "shape or type")
            a, b = cut(got), cut(want)
            ok = np.abs(a - b) <= 1e-3 * (1. + np.abs(b)) * (1. + np.abs(b))
            rec.ok(ok.sum() >= ok.size - 2, case, "Ks {} instead of {}".format(got, want))
            return
        rec.close(got, want, case, rtol=0., atol=tol)


def run_unit(unit, rec):
    kind = unit[0]
    ctx = Ctx(unit[1])
    seen = set()
    if kind == "values":
        return definitions(ctx, rec)
    skind = unit[2]
    ref = ctx.reference(skind)
    if kind == "singles":
        # default resolution and finer grids
        seqs = [(a, b) for a, b in zip(FIELDS, FIELDS[1:] + FIELDS[:1])]
    elif kind == "pairs":
        seqs = list(itertools.product(FIELDS, FIELDS))
    elif kind == "triples":
        a = FIELDS[unit[3]]
        seqs = [(a, b, c) for b, c in itertools.product(FIELDS, FIELDS)]
    else:
        a = MEMO[unit[3]]
        seqs = [(a, b, c, d) for b, c, d in itertools.product(MEMO, MEMO, MEMO)]
    for seq in seqs:
        s = ctx.make(skind)
        t, g = s.time, s.grid
        for i, name in enumerate(seq):
            ctx.compare(rec, s, name, ref, (skind, seq[:i + 1]))
            rec.count("transitions")
            seen.add(frozenset(seq[:i + 1]))
        rec.ok(s.time == t and s.grid == g, (skind, seq), "time or grid changed by access")
        rec.ev((skind, seq), nontrivial=True)
        rec.count("traces")
    rec.count("states", len(seen))


def definitions(ctx, rec):
    """Definitions among the fields themselves, for every kind of state, and the shortcuts with arguments."""
    bt, g = ctx.bt, ctx.grid
    d = bt.diagnostics
    for kind in KINDS:
        s = ctx.make(kind)
        ref = ctx.reference(kind)
        for name in FIELDS:
            ctx.compare(rec, s, name, ref, (kind, name))
        # the wind is the nondivergent flow with the relative vorticity
        zmax = max(np.max(np.abs(s.vorticity)), ctx.scale * 0.1)
        rec.close(g.vorticity(s.u, s.v), g.to_grid(s.vorticity_spectral), (kind, "curl"), rtol=0., atol=2e-4 * zmax)
        rec.close(g.divergence(s.u, s.v), np.zeros(g.shape), (kind, "div"), rtol=0., atol=2e-4 * zmax)
        # the streamfunction has zero mean, its Laplacian is the vorticity
        psi = s.streamfunction
        rec.close(g.to_spectral(psi)[0], 0., (kind, "mean psi"), rtol=0., atol=1e-5 * np.max(np.abs(psi)))
        z = g.to_spectral(s.vorticity.astype(float))
        z[0] = 0
        rec.close(g.laplace(psi), g.to_grid(z), (kind, "laplace psi"), rtol=0., atol=2e-4 * zmax)
        # wind is the rotated gradient of the streamfunction
        if ctx.nt is not None:
            px, py = g.gradient(psi)
            rec.close(s.u, -py, (kind, "u psi"), rtol=0., atol=ctx.tol["u"] * 10)
            rec.close(s.v, px, (kind, "v psi"), rtol=0., atol=ctx.tol["v"] * 10)
        for k in (0.5, 2, 3):
            rec.ok(s.extract_ks_waveguides(k) == d.extract_ks_waveguides(s, k) == s.extract_ks_waveguides(k=k), (kind, "waveguides", k), "shortcut")
        rec.ok(type(s.pv) is np.ndarray and s.pv.shape == g.shape, (kind, "shape"), "")
        # repeated access
        for name in FIELDS[:-1]:
            rec.close(getattr(s, name), getattr(s, name), (kind, "twice", name), rtol=1e-9)
        rec.ev((kind, "definitions"))
        rec.count("states")
        rec.count("transitions", 2 * len(FIELDS))
        rec.count("traces")
