"""Independent reference implementations"""
import functools
import numpy as np

RAD_E = 6.371e8


def plm4pi(lmax, x, mmax=None):
    """4-pi normalised associated Legendre functions without the
    Condon-Shortley phase, and derivatives with respect to colatitude.

    Computed with the standard forward column recursion from sectoral seeds.
    returns P[l,m,i], dP[l,m,i]
    """
    x = np.atleast_1d(np.asarray(x, dtype=np.longdouble))
    mmax = lmax if mmax is None else mmax
    u = np.sqrt(np.maximum(1 - x*x, 0))
    P = np.zeros((lmax + 1, lmax + 1, len(x)), dtype=np.longdouble)
    P[0, 0] = 1.0
    L = np.longdouble
    for m in range(1, lmax + 1):
        f = np.sqrt(L(3)) if m == 1 else np.sqrt(L(2*m + 1)/L(2*m))
        P[m, m] = f*u*P[m - 1, m - 1]
    for l in range(1, lmax + 1):
        P[l, l - 1] = np.sqrt(L(2*l + 1))*x*P[l - 1, l - 1]
        if l >= 2:
            m = np.arange(0, l - 1).astype(L)
            a = np.sqrt(L((2*l - 1)*(2*l + 1))/((l - m)*(l + m)))
            b = np.sqrt(L(2*l + 1)*(l + m - 1)*(l - m - 1) /
                ((l - m)*(l + m)*L(2*l - 3)))
            P[l, :l - 1] = a[:, None]*x*P[l - 1, :l - 1] - \
                b[:, None]*P[l - 2, :l - 1]
    # derivative d/dtheta where x = cos(theta):
    #  dP/dtheta = m cot(theta) P_lm - sqrt((l+m+1)(l-m)) P_l,m+1 * norm
    dP = np.zeros_like(P)
    for l in range(lmax + 1):
        m = np.arange(l + 1).astype(L)
        up = np.zeros((l + 1, len(x)), dtype=L)
        dn = np.zeros((l + 1, len(x)), dtype=L)
        up[:l] = P[l, 1:l + 1]
        dn[1:] = P[l, :l]
        d0 = np.ones(l + 1, dtype=L)
        if l >= 1:
            d0[1] = 2
        row = 0.5*(np.sqrt((l + m)*(l - m + 1)*d0)[:, None]*dn -
            np.sqrt((l + m + 1)*(l - m))[:, None]*up)
        row[0] = -np.sqrt(L(l*(l + 1))/L(2))*up[0]
        dP[l, :l + 1] = row
    return (P[:, :mmax + 1].astype(float), dP[:, :mmax + 1].astype(float))


def synth(clm, slm, lon, lat, lmin=0, lmax=None, mmax=None):
    """direct evaluation on the lon x lat grid (degrees): out[lon, lat]"""
    L = np.shape(clm)[0] - 1
    M = np.shape(clm)[1] - 1
    lmax = L if lmax is None else lmax
    mmax = M if mmax is None else mmax
    mmax = min(mmax, M, lmax)
    lon = np.atleast_1d(lon).astype(float)
    lat = np.atleast_1d(lat).astype(float)
    P, _ = plm4pi(lmax, np.sin(np.radians(lat)), mmax)
    out = np.zeros((len(lon), len(lat)))
    phi = np.radians(lon)
    for m in range(mmax + 1):
        lo = max(lmin, m)
        if lo > lmax:
            continue
        cc = np.einsum('l,lt->t', clm[lo:lmax + 1, m], P[lo:lmax + 1, m])
        ss = np.einsum('l,lt->t', slm[lo:lmax + 1, m], P[lo:lmax + 1, m])
        out += np.cos(m*phi)[:, None]*cc[None, :] + \
            np.sin(m*phi)[:, None]*ss[None, :]
    return out


def synth_points(clm, slm, lon, lat, lmin=0, lmax=None):
    """direct evaluation at scattered points (degrees)"""
    L = np.shape(clm)[0] - 1
    M = np.shape(clm)[1] - 1
    lmax = L if lmax is None else lmax
    lon = np.atleast_1d(lon).astype(float)
    lat = np.atleast_1d(lat).astype(float)
    P, _ = plm4pi(lmax, np.sin(np.radians(lat)))
    out = np.zeros(len(lon))
    phi = np.radians(lon)
    for l in range(lmin, lmax + 1):
        for m in range(min(l, M) + 1):
            out += P[l, m]*(clm[l, m]*np.cos(m*phi) + slm[l, m]*np.sin(m*phi))
    return out


def basis_bound(clm, slm):
    """upper bound for the magnitude of the synthesised field"""
    l = np.arange(np.shape(clm)[0])[:, None]
    w = np.sqrt(2.0*l + 1.0)*1.5
    if np.ndim(clm) == 3:
        w = w[:, :, None]
    return float(np.sum(w*np.sqrt(np.asarray(clm)**2 + np.asarray(slm)**2)))


@functools.lru_cache(maxsize=64)
def glq(n):
    return np.polynomial.legendre.leggauss(n)


def analyse(f, lon, lat_x, w, lmax, mmax=None):
    """exact analysis with Gauss-Legendre nodes: f[lon, lat]"""
    mmax = lmax if mmax is None else mmax
    P, _ = plm4pi(lmax, lat_x, mmax)
    phi = np.radians(lon)
    nphi = len(lon)
    C = np.zeros((lmax + 1, mmax + 1))
    S = np.zeros((lmax + 1, mmax + 1))
    for m in range(mmax + 1):
        cm = np.cos(m*phi) @ f/nphi*2*np.pi
        sm = np.sin(m*phi) @ f/nphi*2*np.pi
        C[:, m] = (P[:, m]*w) @ cm/(4*np.pi)
        S[:, m] = (P[:, m]*w) @ sm/(4*np.pi)
    return C, S


# ------------------------------------------------------------------ calendar
def days_from_civil(y, m, d):
    """days since 1970-01-01 in the proleptic Gregorian calendar"""
    y = int(y) - (1 if m <= 2 else 0)
    era = y//400
    yoe = y - era*400
    doy = (153*(m + (-3 if m > 2 else 9)) + 2)//5 + d - 1
    doe = yoe*365 + yoe//4 - yoe//100 + doy
    return era*146097 + doe - 719468


def is_leap(y):
    return (y % 4 == 0) and ((y % 100 != 0) or (y % 400 == 0))


MONTH_DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_lengths(y):
    d = list(MONTH_DAYS)
    if is_leap(y):
        d[1] = 29
    return d


def decimal_year(y, m, d, h=0, mi=0, s=0):
    doy = sum(month_lengths(y)[:m - 1]) + (d - 1) + h/24.0 + mi/1440.0 + s/86400.0
    return y + doy/(366.0 if is_leap(y) else 365.0)


# ------------------------------------------------------------- unit factors
class Earth:
    """Earth parameters of the documentation (WGS84, without atmosphere)"""
    def __init__(self, a_axis=6.378137e8, flat=1.0/298.257223563):
        self.G = 6.67430e-8
        self.GM = 3986004.418e14 - 3.5e14
        self.a = a_axis
        self.flat = flat
        self.b = a_axis*(1 - flat)
        self.R = (self.a*self.a*self.b)**(1/3)
        self.rho = self.GM/self.G/(4/3*np.pi*self.R**3)
        self.g = 980.665


CODES = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']


def harmonic_factors(lmax, love, elastic=True, ellipsoidal=False, earth=None):
    """normalised coefficients -> named units, per degree"""
    e = earth or Earth()
    hl, kl, ll = [np.asarray(v, dtype=float)[:lmax + 1] for v in love]
    l = np.arange(lmax + 1)
    f = 1.0 + (kl if elastic else 0.0*kl)
    if ellipsoidal:
        f = f/(1.0 - e.flat)
    cm = e.rho*e.R/3.0*(2*l + 1)/f
    return dict(norm=np.ones(lmax + 1), cmwe=cm, mmwe=10*cm,
        mmGH=np.full(lmax + 1, 10*e.R), mmCU=10*e.R*hl/f, mmCH=10*e.R*ll/f,
        cmVCU=e.R*(2*l + 1)/2.0, mVCU=e.R*(2*l + 1)/200.0,
        microGal=1e6*e.GM/e.R**2*(l + 1.0), mbar=cm*e.g/1e3, Pa=cm*e.g/10.0)


def spatial_factors(lmax, love, elastic=True, earth=None):
    """named units integrated over the sphere -> normalised coefficients"""
    e = earth or Earth()
    hl, kl, ll = [np.asarray(v, dtype=float)[:lmax + 1] for v in love]
    l = np.arange(lmax + 1)
    f = 1.0 + (kl if elastic else 0.0*kl)
    cm = 3.0/(e.rho*e.R)*f/(2*l + 1)/(4*np.pi)
    return dict(norm=np.ones(lmax + 1), cmwe=cm, mmwe=cm/10,
        mmGH=np.full(lmax + 1, 1/(4*np.pi*10*e.R)),
        microGal=e.R**2/(4*np.pi*1e6*e.GM*(l + 1.0)))


def gauss(hw, lmax):
    """exact normalised Gaussian weights (weight of degree 0 is 1)"""
    from scipy.special import ive
    if hw == 0:
        return np.ones(lmax + 1)
    l = np.arange(lmax + 1)
    b = np.log(2.0)/(2.0*np.sin(hw/6371.0/2.0)**2)
    return ive(l + 0.5, b)/ive(0.5, b)
