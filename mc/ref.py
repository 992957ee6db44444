"""Reference model: the physics and the geometry written from the theory and the user documentation in plain
vectorised numpy. It shares no code with the repository and is deliberately boring."""
import numpy as np

FOURPI = 4.0 * np.pi
CORE = 1e-8


# ---------------------------------------------------------------- kernels (Biot-Savart)
def segment(P, A, B, gamma=1.0):
    """Velocity at points P[...,3] of the straight segment A->B (broadcast), zero on the core. Also returns the core
    mask and a 'too close to the core border to call' mask."""
    P, A, B = np.broadcast_arrays(np.asarray(P, float), np.asarray(A, float), np.asarray(B, float))
    r1, r2 = P - A, P - B
    n1, n2 = np.linalg.norm(r1, axis=-1), np.linalg.norm(r2, axis=-1)
    cr = np.cross(r1, r2)
    cc = np.einsum("...i,...i", cr, cr)
    core = (n1 < CORE) | (n2 < CORE) | (cc < CORE)
    edge = (np.abs(cc - CORE) < 1e-6 * CORE) | (np.abs(n1 - CORE) < 1e-3 * CORE) | (np.abs(n2 - CORE) < 1e-3 * CORE)
    dot = np.einsum("...i,...i", r1, r2)
    den = n1 * n2 * (n1 * n2 + dot)
    # for nearly antiparallel r1, r2 use the equivalent |r1 x r2|^2 form to avoid cancellation
    bad = dot < 0
    with np.errstate(all="ignore"):
        k1 = (n1 + n2) / den
        k2 = (n1 + n2) * (n1 * n2 - dot) / (n1 * n2 * cc)
        k = np.where(bad, k2, k1)
        v = gamma / FOURPI * cr * k[..., None]
    v = np.where(core[..., None], 0.0, v)
    return v, core, edge


def ray(P, A, d, gamma=1.0):
    """Velocity of the semi-infinite vortex from A to infinity along d."""
    P, A, d = np.broadcast_arrays(np.asarray(P, float), np.asarray(A, float), np.asarray(d, float))
    u = d / np.linalg.norm(d, axis=-1, keepdims=True)
    r = P - A
    n = np.linalg.norm(r, axis=-1)
    s = np.einsum("...i,...i", u, r)
    cr = np.cross(u, r)
    cc = np.einsum("...i,...i", cr, cr)
    with np.errstate(all="ignore"):
        k1 = 1.0 / (n * (n - s))
        k2 = (n + s) / (n * cc)
        k = np.where(s > 0, k2, k1)
        return gamma / FOURPI * cr * k[..., None]


def ring(P, A, B, C, D, gamma=1.0):
    out, e = 0.0, False
    for a, b in ((A, B), (B, C), (C, D), (D, A)):
        v, _, ed = segment(P, a, b, gamma)
        out = out + v
        e = e | ed
    return out, e


def horseshoe(P, B, C, V, gamma=1.0):
    v, _, e = segment(P, B, C, gamma)
    return v + ray(P, C, V, gamma) - ray(P, B, V, gamma), e


def horseshoe5(P, A, B, C, D, V, gamma=1.0):
    """A->B->C->D with wakes from infinity to A and from D to infinity along V."""
    out, e = 0.0, False
    for a, b in ((A, B), (B, C), (C, D)):
        v, _, ed = segment(P, a, b, gamma)
        out = out + v
        e = e | ed
    return out + ray(P, D, V, gamma) - ray(P, A, V, gamma), e


# ---------------------------------------------------------------- lattice
def layout(K, ns, nc):
    """Row (chordwise) and strip index, and grid number of every panel in the documented order."""
    idx = np.arange(K)
    grid = idx // (ns * nc)
    row = (idx % (ns * nc)) // ns
    strip = idx % ns
    return grid, row, strip


def lattice(panels, ns, nc, go):
    """Panel reference quantities. Corners are [SE, SW, NW, NE]: leech-foot, luff-foot, luff-head, leech-head."""
    K = len(panels)
    grid, row, strip = layout(K, ns, nc)
    SE, SW, NW, NE = (panels[:, i] for i in range(4))
    lem, tem = (SW + NW) / 2, (SE + NE) / 2
    n = np.cross(NW - SE, NE - SW)
    n /= np.linalg.norm(n, axis=1)[:, None]
    qB, qC = SW + (SE - SW) / 4, NW + (NE - NW) / 4            # quarter-chord line
    tA, tD = SE + (SE - SW) / 4, NE + (NE - NW) / 4            # a quarter chord behind the panel
    last = row == nc - 1
    nxt = np.where(last, np.arange(K), np.minimum(np.arange(K) + ns, K - 1))
    A = np.where(last[:, None], tA, qB[nxt])
    D = np.where(last[:, None], tD, qC[nxt])
    return dict(normals=n, ctr=lem + .75 * (tem - lem), cp=lem + .25 * (tem - lem), lem=lem, tem=tem,
                A=A, B=qB, C=qC, D=D, span=go * (qC - qB), te=last, le=(row == 0) & (nc > 1),
                grid=grid, row=row, strip=strip, first=row == 0)


def influence(points, L, V, go):
    """Velocity at points[i] of unit circulation in ring j: [i,j,3] (and whether a core border was hit)."""
    P = points[:, None, :]
    A, B, C, D = (L[k][None] for k in "ABCD")
    r, e1 = ring(P, A, B, C, D, go)
    te = L["te"]
    out = np.array(r)
    edge = np.array(e1)
    if te.any():
        h, e2 = horseshoe5(P, A[:, te], B[:, te], C[:, te], D[:, te], V[te][None], go)
        out[:, te] = h
        edge[:, te] = e2
    return out, bool(edge.any())


def vlm(panels, ns, nc, V_of, rho, go):
    """Complete reference solution. V_of(z-array) -> apparent wind at height |z|."""
    L = lattice(panels, ns, nc, go)
    Vc = V_of(L["cp"][:, 2])
    W, e1 = influence(L["ctr"], L, Vc, go)
    M = np.einsum("ijk,ik->ij", W, L["normals"])
    rhs = -np.einsum("ij,ij->i", Vc, L["normals"])
    gamma = np.linalg.solve(M, rhs)
    Vind_ctr = np.einsum("ijk,j->ik", W, gamma)
    Wc, e2 = influence(L["cp"], L, Vc, go)
    Vind = np.einsum("ijk,j->ik", Wc, gamma)
    loads = kutta(L, gamma, Vc, Vind, rho, ns)
    return dict(L, V=Vc, W=W, Wcp=Wc, M=M, rhs=rhs, gamma=gamma, Vind_ctr=Vind_ctr, V_ctr=Vc + Vind_ctr, Vind=Vind,
                Vcp=Vc + Vind, edge=e1 or e2, cond=np.linalg.cond(M), **loads)


def kutta(L, gamma, V, Vind, rho, ns):
    up = np.where(L["first"], 0, np.arange(len(gamma)) - ns)
    net = np.where(L["first"], gamma, gamma - gamma[up])
    s = L["span"] * net[:, None]
    return dict(net=net, force=rho * np.cross(V + Vind, s), lift=rho * np.cross(V, s), drag=rho * np.cross(Vind, s))


def tri_area(a, b, c):
    return 0.5 * np.linalg.norm(np.cross(b - a, c - a), axis=-1)


def quad_area(p):
    """Area of a planar quadrilateral (either diagonal gives the same)."""
    return tri_area(p[..., 0, :], p[..., 1, :], p[..., 2, :]) + tri_area(p[..., 0, :], p[..., 2, :], p[..., 3, :])


# ---------------------------------------------------------------- winds
def wind_speed(c, h):
    if c["profile"] == "flat":
        return np.full(np.shape(h), float(c["tws"]))
    if c["profile"] == "logarithmic":
        return c["tws"] * np.log(h / c["rough"]) / np.log(c["href"] / c["rough"])
    return c["tws"] * ((h - c["wref"]) / c["href"]) ** c["expc"]


def true_wind(c, h):
    a = np.pi * c["alpha"] / 180.0
    s = wind_speed(c, np.asarray(h, float))
    return np.stack([s * np.cos(a), s * np.sin(a), 0 * s], axis=-1)


def app_wind(c, h):
    return true_wind(c, h) + np.array([c["SOG"], 0.0, 0.0])


# ---------------------------------------------------------------- rotations
def rodrigues(v, axis, ang):
    """Right-handed rotation of v[...,3] about the direction axis."""
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    v = np.asarray(v, float)
    return v * np.cos(ang) + np.cross(k, v) * np.sin(ang) + np.outer(np.dot(v, k), k).reshape(v.shape) * (1 - np.cos(ang))


def rot_about_line(v, p1, p2, ang):
    p1 = np.asarray(p1, float)
    return rodrigues(np.asarray(v, float) - p1, np.asarray(p2, float) - p1, ang) + p1


def rad(d):
    return np.pi * d / 180.0


def attitude(p, heel, leeway, mirrored=False):
    """Upright -> sailing attitude: heel about x towards leeward (+y for the upper half), then leeway about z."""
    p = np.asarray(p, float)
    ch, sh = np.cos(rad(heel)), np.sin(rad(heel))
    if mirrored:
        sh = -sh
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    y, z = y * ch + z * sh, -y * sh + z * ch
    cl, sl = np.cos(rad(leeway)), np.sin(rad(leeway))
    return np.stack([x * cl - y * sl, x * sl + y * cl, z], axis=-1)


MIRROR = np.array([1.0, 1.0, -1.0])


# ---------------------------------------------------------------- sail geometry
def camber_line(x, m, p):
    x = np.asarray(x, float)
    if m == 0:
        return 0 * x
    fore = np.where(p > 0, m / np.where(p == 0, 1, p) ** 2 * (2 * p * x - x * x), 0)
    aft = m / (1 - p) ** 2 * ((1 - 2 * p) + 2 * p * x - x * x)
    return np.where(x < p, fore, aft)


def half_thickness(x, t):
    x = np.asarray(x, float)
    a4 = np.where(1 - x < 1e-4, -0.1036, -0.1015)
    return 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 + a4 * x ** 4)


def not_a_knot_spline(x, y, xn):
    """Cubic through the table, third derivative continuous at the second and last but one station (plain linear
    algebra on the piecewise polynomial coefficients)."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x) - 1
    A, b = np.zeros((4 * n, 4 * n)), np.zeros(4 * n)
    r = 0
    for i in range(n):
        h = x[i + 1] - x[i]
        A[r, 4 * i] = 1; b[r] = y[i]; r += 1
        A[r, 4 * i:4 * i + 4] = [1, h, h * h, h ** 3]; b[r] = y[i + 1]; r += 1
        if i < n - 1:
            A[r, 4 * i:4 * i + 4] = [0, 1, 2 * h, 3 * h * h]; A[r, 4 * i + 5] = -1; r += 1
            A[r, 4 * i:4 * i + 4] = [0, 0, 2, 6 * h]; A[r, 4 * i + 6] = -2; r += 1
    A[r, 3] = 1; A[r, 7] = -1; r += 1
    if n > 2:
        A[r, 4 * (n - 2) + 3] = 1; A[r, 4 * (n - 1) + 3] = -1; r += 1
    co, *_ = np.linalg.lstsq(A[:r], b[:r], rcond=None)
    xn = np.asarray(xn, float)
    k = np.clip(np.searchsorted(x, xn, side="right") - 1, 0, n - 1)
    t = xn - x[k]
    co = co.reshape(n, 4)[k]
    return co[:, 0] + t * (co[:, 1] + t * (co[:, 2] + t * co[:, 3]))


def piecewise_linear(x, y, xn):
    x, y = np.asarray(x, float), np.asarray(y, float)
    out = []
    for v in np.atleast_1d(xn):
        k = int(np.clip(np.searchsorted(x, v, side="right") - 1, 0, len(x) - 2))
        w = (v - x[k]) / (x[k + 1] - x[k])
        out.append((1 - w) * y[k] + w * y[k + 1])
    return np.array(out)


def at_girths(kind, x, y, g):
    return piecewise_linear(x, y, g) if kind == "linear" else not_a_knot_spline(x, y, g)


def sections(kind, x, y, ns):
    return at_girths(kind, x, y, np.arange(ns + 1) / ns)


def mounting(c, sail):
    """Upright tack and head of the sail."""
    rk = rad(c["rake"])
    mast = np.array([-np.cos(rk), 0.0, np.sin(rk)])           # up the mast
    deck = c["sheer"] * mast
    if sail == "main_sail":
        tack = deck + c["boom"] * mast
        return tack, tack + c["mluff"] * mast
    b, h = c["fore_b"], c["fore_h"]
    stay = h * mast + np.array([b, 0, 0])                     # from the bow point to the hounds
    tack = np.array([deck[0] - b - c["mast_LOA"] / np.sin(rk), 0.0, deck[2]])
    return tack, tack + c["jluff"] * stay / np.linalg.norm(stay)


def twist_used(mode, twist):
    if mode == "average_const":
        return np.full(len(twist), np.mean(twist))
    if mode == "sheeting_angle_const":
        return np.full(len(twist), np.min(twist))
    return np.asarray(twist, float)


def sail_grid(c, sail):
    """(unrotated, rotated) above-water points [row 0..nc, strip line 0..ns, 3]."""
    pre = "m" if sail == "main_sail" else "j"
    ns, nc = c["mesh"]
    t = c["tables"][pre]
    sec = {k: sections(c["interp"], t["girths"], t[k], ns) for k in ("chords", "twist", "camber", "camdist")}
    tack, head = mounting(c, sail)
    g = np.arange(ns + 1) / ns
    luff = tack + g[:, None] * (head - tack)
    x = np.arange(nc + 1) / nc
    flat = np.zeros((nc + 1, ns + 1, 3))
    for j in range(ns + 1):
        ch = sec["chords"][j]
        flat[:, j, 0] = luff[j, 0] + ch * x
        flat[:, j, 1] = ch * camber_line(x, sec["camber"][j], sec["camdist"][j])
        flat[:, j, 2] = luff[j, 2]
    tw = twist_used(c["tmode"], sec["twist"])
    up = np.zeros_like(flat)
    for j in range(ns + 1):
        up[:, j] = rot_about_line(flat[:, j], tack, head, rad(tw[j]))
    return flat, attitude(up, c["heel"], c["leeway"])


def grid_panels(G):
    """Grid [row,line,3] -> panels [SE,SW,NW,NE], rows from luff to leech, strips from line 0 upwards."""
    out = []
    for i in range(G.shape[0] - 1):
        for j in range(G.shape[1] - 1):
            out.append([G[i + 1, j], G[i, j], G[i, j + 1], G[i + 1, j + 1]])
    return np.array(out)


def mirror_grid(G):
    """Reflection in the water plane, lines still running upwards (head of the image is its lowest point)."""
    return G[:, ::-1] * MIRROR


def sail_names(c):
    return {"jib": ["jib"], "main": ["main_sail"], "jib_and_main": ["jib", "main_sail"]}[c["sails"]]


def sail_set(c):
    flats, grids = zip(*[sail_grid(c, s) for s in sail_names(c)])
    pan = np.concatenate([grid_panels(G) for G in grids] + [grid_panels(mirror_grid(G)) for G in grids])
    zero = np.concatenate([grid_panels(G) for G in flats] + [grid_panels(mirror_grid(G)) for G in flats])
    ns, nc = c["mesh"]
    _, row, _ = layout(len(pan), ns, nc)
    return dict(panels=pan, zero=zero, te=row == nc - 1, le=(row == 0) & (nc > 1), grids=grids, flats=flats)


def mirror_index(K, ns, nc):
    """Index of the mirror image of each panel."""
    half = K // 2
    grid, row, strip = layout(K, ns, nc)
    m = (np.arange(K) + half) % K
    return m - strip + (ns - 1 - strip)
