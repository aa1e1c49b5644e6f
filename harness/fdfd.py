"""Dense reference discretisation.  It is only used to produce witnesses (iterates,
tangents) which the specification verifies by their defining equations, and to
choose meaningful magnitudes for scenarios."""
import numpy as np

EPS0, MU0 = 8.85418782e-12, 1.25663706e-6
ETA0 = np.sqrt(MU0 / EPS0)


def stretch(n, np_, half, dl, om, L0):
    s = np.ones(n, complex)
    if np_ < 1:
        return s
    d = np_ * dl
    off = .5 if half else 1.
    for i in range(n):
        l = None
        if i <= np_:
            l = np_ - i + off
        elif i > n - np_:
            l = i - (n - np_) - off
        if l is not None:
            smax = 60 / (2 * ETA0 * d)
            s[i] = 1 - 1j * smax * (l * dl / d)**4 / (om * EPS0 * L0)
    return s


def shiftm(n, k):
    """(S f)[i] = f[i + k]"""
    return np.roll(np.eye(n), k, axis=1)


class Grid:
    def __init__(self, Nx, Ny, dl, L0, om, npml, pol):
        self.Nx, self.Ny, self.dl, self.L0, self.om, self.pol = Nx, Ny, dl, L0, om, pol
        self.ep, self.mu = EPS0 * L0, MU0 * L0

        def diff(n, np_, fwd):
            if n == 1:
                return np.zeros((1, 1), complex)
            D = (shiftm(n, 1) - np.eye(n)) if fwd else (np.eye(n) - shiftm(n, -1))
            return D / (stretch(n, np_, fwd, dl, om, L0) * dl)[:, None]
        ix, iy = np.eye(Nx), np.eye(Ny)
        self.Dxf, self.Dxb = np.kron(diff(Nx, npml[0], True), iy), np.kron(diff(Nx, npml[0], False), iy)
        self.Dyf, self.Dyb = np.kron(ix, diff(Ny, npml[1], True)), np.kron(ix, diff(Ny, npml[1], False))

    @staticmethod
    def of(sim, om=None):
        return Grid(int(sim.Nx), int(sim.Ny), float(sim.dl), float(sim.L0), float(sim.omega if om is None else om),
                    [int(n) for n in sim.NPML], sim.pol)

    def avg(self, F, ax):
        return (F + np.roll(F, 1, axis=ax)) / 2

    def A(self, eps):
        if self.pol == 'Ez':
            return (self.Dxf @ self.Dxb + self.Dyf @ self.Dyb) / self.mu + np.diag(self.om**2 * self.ep * eps.reshape(-1))
        ex, ey = self.avg(eps, 0).reshape(-1), self.avg(eps, 1).reshape(-1)
        return (self.Dxf @ (self.Dxb / (self.ep * ex)[:, None]) + self.Dyf @ (self.Dyb / (self.ep * ey)[:, None])
                + self.om**2 * self.mu * np.eye(self.Nx * self.Ny))

    def solve(self, eps, src):
        return np.linalg.solve(self.A(eps), 1j * self.om * src.reshape(-1)).reshape(self.Nx, self.Ny)

    def transverse(self, F, eps):
        f = F.reshape(-1)
        if self.pol == 'Ez':
            return ((-1 / 1j / self.om / self.mu * (self.Dyb @ f)).reshape(F.shape),
                    (1 / 1j / self.om / self.mu * (self.Dxb @ f)).reshape(F.shape))
        e = eps.reshape(-1)
        return ((1 / 1j / self.om / self.ep * (self.Dyb @ f) / e).reshape(F.shape),
                (-1 / 1j / self.om / self.ep * (self.Dxb @ f) / e).reshape(F.shape))

    # ---- Kerr: nls = list of (chi, reg, scale, emax) ---------------------
    def frac(self, n, eps):
        return (eps - 1) / (n[3] - 1) if n[2] else np.ones(eps.shape)

    def eps_nl(self, nls, eps, E):
        return sum((3 * n[0] / self.L0**2 * n[1] * np.abs(E)**2 * self.frac(n, eps) for n in nls), np.zeros(E.shape))

    def _jac(self, nls, eps, E):
        w = self.om**2 * self.ep
        k = sum((3 * n[0] / self.L0**2 * n[1] * self.frac(n, eps) for n in nls), np.zeros(E.shape))
        J11 = self.A(eps + self.eps_nl(nls, eps, E)) + np.diag((w * k * np.abs(E)**2).reshape(-1))
        J12 = np.diag((w * k * E * E).reshape(-1))
        return J11, J12

    def c2r(self, J11, J12, b):
        """x with J11 x + J12 conj(x) = b"""
        M = np.block([[J11.real + J12.real, -J11.imag + J12.imag], [J11.imag + J12.imag, J11.real - J12.real]])
        x = np.linalg.solve(M, np.concatenate([b.real, b.imag]))
        n = len(b)
        return x[:n] + 1j * x[n:]

    def born(self, nls, eps, src, E):
        return self.solve(eps + self.eps_nl(nls, eps, E), src)

    def newton(self, nls, eps, src, E):
        f = self.A(eps + self.eps_nl(nls, eps, E)) @ E.reshape(-1) - 1j * self.om * src.reshape(-1)
        J11, J12 = self._jac(nls, eps, E)
        return E - self.c2r(J11, J12, f).reshape(E.shape)

    def iterate(self, kind, nls, eps, src, E, thr, maxit):
        """iterates E0..En and the relative changes"""
        W, c = [E], []
        for _ in range(maxit):
            with np.errstate(all='ignore'):
                F = getattr(self, kind)(nls, eps, src, W[-1])
                c.append(np.linalg.norm(F - W[-1]) / np.linalg.norm(F))
            if not np.isfinite(c[-1]):
                break
            W.append(F)
            if c[-1] < thr:
                break
        return W, c

    def tangent(self, nls, eps, E, deps):
        """first-order change of the solution for a change deps of the permittivity"""
        w = self.om**2 * self.ep
        if self.pol == 'Ez':
            k = sum((3 * n[0] / self.L0**2 * n[1] * np.abs(E)**2 * (1 / (n[3] - 1) if n[2] else 0) for n in nls), np.zeros(E.shape))
            b = -(w * (1 + k) * deps * E).reshape(-1)
            if not nls:
                return np.linalg.solve(self.A(eps), b).reshape(E.shape)
            J11, J12 = self._jac(nls, eps, E)
            return self.c2r(J11, J12, b).reshape(E.shape)
        ex, ey = self.avg(eps, 0).reshape(-1), self.avg(eps, 1).reshape(-1)
        dx, dy = self.avg(deps, 0).reshape(-1), self.avg(deps, 1).reshape(-1)
        f = E.reshape(-1)
        b = (self.Dxf @ (dx / ex**2 * (self.Dxb @ f)) + self.Dyf @ (dy / ey**2 * (self.Dyb @ f))) / self.ep
        return np.linalg.solve(self.A(eps), b).reshape(E.shape)
