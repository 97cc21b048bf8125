"""Independent two-body reference (plain Python floats, no pyorb, no numpy).

Conventions are the documented ones of pyorb: elements (a, e, i, omega, Omega, anomaly);
`a` is positive for hyperbolas and the periapsis distance for parabolas (e == 1); circular
orbits have omega = 0, planar orbits Omega = 0 when derived from a Cartesian state.
All functions here use radians; unit handling is done by the caller.
"""
from math import (sqrt, sin, cos, tan, atan2, atan, asinh, sinh, cosh, tanh, atanh, acos,
                  pi, fmod, isfinite, copysign, cbrt)

TWO_PI = 2.0*pi
E_LIM = 1e-9
I_LIM = pi*1e-9


def wrap(x):
    """into [0, 2 pi)"""
    y = fmod(x, TWO_PI)
    if y < 0:
        y += TWO_PI
    return y


def wrap_pm(x):
    """into (-pi, pi]"""
    y = wrap(x)
    return y - TWO_PI if y > pi else y


def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])


def dot(a, b):
    return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]


def norm(a):
    return sqrt(dot(a, a))


def klass(e):
    if e < E_LIM:
        return 'circ'
    if e < 1.0:
        return 'ell'
    if e == 1.0:
        return 'par'
    return 'hyp'


# --- anomalies -------------------------------------------------------------------------

def nu_to_E(nu, e):
    """eccentric (elliptic / parabolic / hyperbolic) anomaly, signed, not wrapped for open orbits"""
    nu = wrap_pm(nu)
    if e < 1.0:
        return 2.0*atan2(sqrt(1.0 - e)*sin(nu*0.5), sqrt(1.0 + e)*cos(nu*0.5))
    if e == 1.0:
        return tan(nu*0.5)
    return 2.0*atanh(sqrt((e - 1.0)/(e + 1.0))*tan(nu*0.5))


def E_to_nu(E, e):
    if e < 1.0:
        return 2.0*atan2(sqrt(1.0 + e)*sin(E*0.5), sqrt(1.0 - e)*cos(E*0.5))
    if e == 1.0:
        return 2.0*atan(E)
    return 2.0*atan(sqrt((e + 1.0)/(e - 1.0))*tanh(E*0.5))


def E_to_M(E, e):
    if e < 1.0:
        return E - e*sin(E)
    if e == 1.0:
        return E + E**3/3.0
    return e*sinh(E) - E


def M_to_E(M, e):
    """Kepler's equation by safeguarded Newton iteration"""
    if e == 1.0:
        A = 1.5*abs(M)
        B = cbrt(A + sqrt(A*A + 1.0))
        return copysign(B - 1.0/B, M)
    if e < 1.0:
        k = round(M/TWO_PI)
        m = M - k*TWO_PI
        lo, hi = -pi - 1e-9, pi + 1e-9
        E = m + e*sin(m)
        for _ in range(200):
            f = E - e*sin(E) - m
            if f > 0:
                hi = E
            else:
                lo = E
            new = E - f/(1.0 - e*cos(E))
            if not (lo <= new <= hi):
                new = 0.5*(lo + hi)
            if abs(new - E) <= 1e-16*(1.0 + abs(E)):
                E = new
                break
            E = new
        return E + k*TWO_PI
    E = asinh(M/e)
    lo, hi = min(0.0, 4.0*E - 1.0, E - 60.0), max(0.0, 4.0*E + 1.0, E + 60.0)
    for _ in range(300):
        f = e*sinh(E) - E - M
        if f > 0:
            hi = E
        else:
            lo = E
        new = E - f/(e*cosh(E) - 1.0)
        if not (lo <= new <= hi):
            new = 0.5*(lo + hi)
        if abs(new - E) <= 1e-16*(1.0 + abs(E)):
            E = new
            break
        E = new
    return E


def anomaly(x, e, src, dst):
    """converts an anomaly in radians between 'true', 'eccentric' and 'mean'"""
    if src == dst:
        return x
    if src == 'true':
        E = nu_to_E(x, e)
    elif src == 'mean':
        E = M_to_E(x, e)
    else:
        E = x
    if dst == 'eccentric':
        return E
    if dst == 'mean':
        return E_to_M(E, e)
    return E_to_nu(E, e)


# --- state vectors ---------------------------------------------------------------------

def semilatus(a, e):
    if e < 1.0:
        return a*(1.0 - e*e)
    if e == 1.0:
        return 2.0*a
    return a*(e*e - 1.0)


def kep_to_cart(a, e, i, om, OM, nu, mu):
    p = semilatus(a, e)
    u = om + nu
    co, so, ci, si = cos(OM), sin(OM), cos(i), sin(i)
    r = p/(1.0 + e*cos(nu))
    # unit vectors: towards the node and 90 degrees ahead of it in the orbital plane
    N = (co, so, 0.0)
    Q = (-so*ci, co*ci, si)
    cu, su = cos(u), sin(u)
    k = sqrt(mu/p)
    fx = -k*(su + e*sin(om))
    fy = k*(cu + e*cos(om))
    return tuple(r*(cu*N[j] + su*Q[j]) for j in range(3)) + \
        tuple(fx*N[j] + fy*Q[j] for j in range(3))


def cart_to_kep(c, mu):
    """(a, e, i, omega, Omega, nu); omega/Omega conventions of the library"""
    r, v = c[:3], c[3:]
    rn = norm(r)
    h = cross(r, v)
    hn = norm(h)
    vh = cross(v, h)
    ev = tuple(vh[j]/mu - r[j]/rn for j in range(3))
    e = norm(ev)
    inc = atan2(sqrt(h[0]*h[0] + h[1]*h[1]), h[2])
    p = hn*hn/mu
    if abs(e - 1.0) < E_LIM:
        e = 1.0
        a = 0.5*p
    else:
        a = p/abs(1.0 - e*e)
    planar = inc <= I_LIM or inc >= pi - I_LIM
    if planar:
        N = (1.0, 0.0, 0.0)
        OM = 0.0
    else:
        nn = sqrt(h[0]*h[0] + h[1]*h[1])
        N = (-h[1]/nn, h[0]/nn, 0.0)
        OM = wrap(atan2(N[1], N[0]))
    hh = tuple(x/hn for x in h)
    Q = cross(hh, N)

    def ang(x):
        return atan2(dot(x, Q), dot(x, N))
    if e < E_LIM:
        om = 0.0
        nu = wrap(ang(r))
    else:
        om = wrap(ang(ev))
        nu = wrap(ang(r) - om)
    return (a, e, inc, om, OM, nu)


def mean_motion(a, e, mu):
    n = sqrt(mu/a**3)
    return n/sqrt(2.0) if e == 1.0 else n


def period(a, mu):
    return TWO_PI*sqrt(a**3/mu)


def energy(c, mu):
    v = c[3:]
    return 0.5*dot(v, v) - mu/norm(c[:3])


def angular_momentum(c):
    return cross(c[:3], c[3:])


# --- universal variables: propagation without orbital elements ---------------------------

def stumpff_c2c3(z):
    if z > 1e-2:
        s = sqrt(z)
        return (1.0 - cos(s))/z, (s - sin(s))/(s*z)
    if z < -1e-2:
        s = sqrt(-z)
        return (cosh(s) - 1.0)/(-z), (sinh(s) - s)/(s*(-z))
    c2 = c3 = 0.0
    t2, t3 = 0.5, 1.0/6.0
    for k in range(12):
        c2 += t2
        c3 += t3
        t2 *= -z/((2*k + 3)*(2*k + 4))
        t3 *= -z/((2*k + 4)*(2*k + 5))
    return c2, c3


def propagate_universal(c, mu, dt):
    r0v, v0v = c[:3], c[3:]
    r0 = norm(r0v)
    vr0 = dot(r0v, v0v)/r0
    alpha = 2.0/r0 - dot(v0v, v0v)/mu
    if abs(alpha)*r0 < 1e-10:
        alpha = 0.0
    if alpha > 0:
        P = TWO_PI/sqrt(mu)/alpha**1.5
        dt = dt - P*round(dt/P)
    sm = sqrt(mu)

    def F(X):
        z = alpha*X*X
        c2, c3 = stumpff_c2c3(z)
        t = r0*vr0/sm*X*X*c2 + (1.0 - alpha*r0)*X**3*c3 + r0*X
        r = r0*vr0/sm*X*(1.0 - z*c3) + (1.0 - alpha*r0)*X*X*c2 + r0
        return t/sm, r

    # t(X) is monotonically increasing: bracket then safeguarded Newton
    step = sm*abs(dt)/r0 + 1e-300
    sgn = 1.0 if dt >= 0 else -1.0
    lo, hi = 0.0, sgn*step
    limit = 40.0/sqrt(-alpha) if alpha < 0 else None
    for _ in range(400):
        if limit is not None and abs(hi) > limit:
            hi = sgn*limit
            break
        if sgn*F(hi)[0] >= abs(dt):
            break
        lo = hi
        hi *= 1.6
    X = 0.5*(lo + hi)
    a_, b_ = min(lo, hi), max(lo, hi)
    for _ in range(300):
        t, r = F(X)
        f = t - dt
        if f > 0:
            b_ = X
        else:
            a_ = X
        new = X - f*sm/r
        if not (a_ <= new <= b_):
            new = 0.5*(a_ + b_)
        if abs(new - X) <= 4e-16*abs(X):
            X = new
            break
        X = new
    z = alpha*X*X
    c2, c3 = stumpff_c2c3(z)
    f = 1.0 - X*X/r0*c2
    g = dt - X**3*c3/sm
    rv = tuple(f*r0v[j] + g*v0v[j] for j in range(3))
    r = norm(rv)
    fd = sm/(r*r0)*(alpha*X**3*c3 - X)
    gd = 1.0 - X*X/r*c2
    vv = tuple(fd*r0v[j] + gd*v0v[j] for j in range(3))
    return rv + vv


def propagate(c, mu, dt):
    """two-body motion of a state vector over dt (elements route, any class)"""
    a, e, i, om, OM, nu = cart_to_kep(c, mu)
    M = anomaly(nu, e, 'true', 'mean') + mean_motion(a, e, mu)*dt
    return kep_to_cart(a, e, i, om, OM, anomaly(M, e, 'mean', 'true'), mu)


def kep_to_equi(a, e, i, om, OM, M):
    return (a, e*sin(om + OM), e*cos(om + OM), tan(0.5*i)*sin(OM), tan(0.5*i)*cos(OM),
            wrap(om + OM + M))


def equi_to_kep(q):
    a, h, k, p, qq, lam = q
    e = sqrt(h*h + k*k)
    OM = atan2(p, qq)
    if e > E_LIM:
        ob = atan2(h, k)
        om = wrap(ob - OM)
        M = wrap(lam - ob)
    else:
        om = 0.0
        M = wrap(lam - OM)
    return (a, e, 2.0*atan(sqrt(p*p + qq*qq)), om, wrap(OM), M)


def phys_diff(c1, c2):
    """relative distance of two states"""
    dr = norm([c1[j] - c2[j] for j in range(3)])/max(norm(c1[:3]), norm(c2[:3]), 1e-300)
    dv = norm([c1[j] - c2[j] for j in range(3, 6)])/max(norm(c1[3:]), norm(c2[3:]), 1e-300)
    d = max(dr, dv)
    return d if isfinite(d) else float('inf')


def self_test():
    import random
    rng = random.Random(5)
    worst = 0.0
    for _ in range(4000):
        e = rng.choice([0.0, 1.0, rng.uniform(0.02, 0.95), rng.uniform(1.05, 5)])
        i = rng.choice([0.0, pi, rng.uniform(0.02, pi - 0.02)])
        a, mu = 10**rng.uniform(-1, 1), 10**rng.uniform(-1, 2)
        lim = pi if e < 1 else (2.2 if e == 1 else 0.85*acos(-1.0/e))
        nu = rng.uniform(-lim, lim)
        k = (a, e, i, rng.uniform(0, 6.28), rng.uniform(0, 6.28), nu)
        c = kep_to_cart(*k, mu)
        worst = max(worst, phys_diff(c, kep_to_cart(*cart_to_kep(c, mu), mu)))
        dt = rng.uniform(-1, 1)/mean_motion(a, e, mu)*3
        worst = max(worst, phys_diff(propagate(c, mu, dt), propagate_universal(c, mu, dt)))
        if e < 1 and i < 3:
            M = anomaly(nu, e, 'true', 'mean')
            q = equi_to_kep(kep_to_equi(*k[:5], M))
            worst = max(worst, phys_diff(
                c, kep_to_cart(*q[:5], anomaly(q[5], q[1], 'mean', 'true'), mu)))
    return worst


if __name__ == '__main__':
    print('reference self test, worst disagreement:', self_test())
