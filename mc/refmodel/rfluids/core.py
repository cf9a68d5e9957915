from __future__ import annotations
from math import pi, sin, sqrt
from rfluids.constants import R, g
'\nAdditional copyright:\nThe functions C2K, K2C, F2C, C2F, F2K, K2F, C2R, K2R, F2R, R2C, R2K, R2F\nwere deprecated from scipy but are still wanted by fluids\nTaken from scipy/constants/constants.py as in commit\nhttps://github.com/scipy/scipy/commit/4b7d325cd50e8828b06d628e69426a18283dc5b5\nAlso from https://github.com/scipy/scipy/pull/5292\nby Gillu13  (Gilles Aouizerate)\nThey are copyright individual contributors to SciPy, under the BSD 3-Clause\nThe license of scipy is as follows:\n\n    Copyright (c) 2001-2002 Enthought, Inc.  2003-2019, SciPy Developers.\nAll rights reserved.\n\nRedistribution and use in source and binary forms, with or without\nmodification, are permitted provided that the following conditions\nare met:\n\n1. Redistributions of source code must retain the above copyright\n   notice, this list of conditions and the following disclaimer.\n\n2. Redistributions in binary form must reproduce the above\n   copyright notice, this list of conditions and the following\n   disclaimer in the documentation and/or other materials provided\n   with the distribution.\n\n3. Neither the name of the copyright holder nor the names of its\n   contributors may be used to endorse or promote products derived\n   from this software without specific prior written permission.\n\nTHIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS\n"AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT\nLIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR\nA PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT\nOWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,\nSPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT\nLIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,\nDATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY\nTHEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT\n(INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE\nOF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.\n'
__all__: list[str] = ['C2F', 'C2K', 'C2R', 'F2C', 'F2K', 'F2R', 'K2C', 'K2F', 'K2R', 'R2C', 'R2F', 'R2K', 'Archimedes', 'Bejan_L', 'Bejan_p', 'Biot', 'Boiling', 'Bond', 'Capillary', 'Cavitation', 'Confinement', 'Dean', 'Drag', 'Eckert', 'Eotvos', 'Euler', 'Fourier_heat', 'Fourier_mass', 'Froude', 'Froude_densimetric', 'Graetz_heat', 'Grashof', 'Hagen', 'Jakob', 'K_from_L_equiv', 'K_from_f', 'Knudsen', 'L_equiv_from_K', 'L_from_K', 'Lewis', 'Mach', 'Morton', 'Nusselt', 'Ohnesorge', 'P_from_head', 'Peclet_heat', 'Peclet_mass', 'Power_number', 'Prandtl', 'Rayleigh', 'Reynolds', 'Schmidt', 'Sherwood', 'Stanton', 'Stokes_number', 'Strouhal', 'Suratman', 'Weber', 'c_ideal_gas', 'dP_from_K', 'f_from_K', 'gravity', 'head_from_K', 'head_from_P', 'nu_mu_converter', 'relative_roughness', 'thermal_diffusivity']

def thermal_diffusivity(k: float, rho: float, Cp: float) -> float:
    return k / (rho * Cp)

def c_ideal_gas(T: float, k: float, MW: float) -> float:
    Rspecific = R * 1000.0 / MW
    return sqrt(k * Rspecific * T)

def Reynolds(V: float, D: float, rho: float | None=None, mu: float | None=None, nu: float | None=None) -> float:
    if rho is not None and mu is not None:
        nu = mu / rho
    elif nu is None:
        raise ValueError('Either density and viscosity, or kinematic viscosity is needed')
    return V * D / nu

def Peclet_heat(V: float, L: float, rho: float | None=None, Cp: float | None=None, k: float | None=None, alpha: float | None=None) -> float:
    if rho is not None and Cp is not None and (k is not None):
        alpha = k / (rho * Cp)
    elif alpha is None:
        raise ValueError('Either heat capacity and thermal conductivity and density, or thermal diffusivity is needed')
    return V * L / alpha

def Peclet_mass(V: float, L: float, D: float) -> float:
    return V * L / D

def Fourier_heat(t: float, L: float, rho: float | None=None, Cp: float | None=None, k: float | None=None, alpha: float | None=None) -> float:
    if rho is not None and Cp is not None and (k is not None):
        alpha = k / (rho * Cp)
    elif alpha is None:
        raise ValueError('Either heat capacity and thermal conductivity and density, or thermal diffusivity is needed')
    return t * alpha / (L * L)

def Fourier_mass(t: float, L: float, D: float) -> float:
    return t * D / (L * L)

def Graetz_heat(V: float, D: float, x: float, rho: float | None=None, Cp: float | None=None, k: float | None=None, alpha: float | None=None) -> float:
    if rho is not None and Cp is not None and (k is not None):
        alpha = k / (rho * Cp)
    elif alpha is None:
        raise ValueError('Either heat capacity and thermal conductivity and density, or thermal diffusivity is needed')
    return V * D * D / (x * alpha)

def Schmidt(D: float, mu: float | None=None, nu: float | None=None, rho: float | None=None) -> float:
    if rho is not None and mu is not None:
        return mu / (rho * D)
    elif nu is not None:
        return nu / D
    else:
        raise ValueError('Insufficient information provided for Schmidt number calculation')

def Lewis(D: float, alpha: float | None=None, Cp: float | None=None, k: float | None=None, rho: float | None=None) -> float:
    if D is None:
        raise ValueError('Diffusivity D is required for Le calculation')
    if k is not None and Cp is not None and (rho is not None):
        alpha = k / (rho * Cp)
    elif alpha is None:
        raise ValueError('Insufficient information provided for Le calculation')
    return alpha / D

def Weber(V: float, L: float, rho: float, sigma: float) -> float:
    return V * V * L * rho / sigma

def Mach(V: float, c: float) -> float:
    return V / c

def Confinement(D: float, rhol: float, rhog: float, sigma: float, g: float=g) -> float:
    return sqrt(sigma / (g * (rhol - rhog))) / D

def Morton(rhol: float, rhog: float, mul: float, sigma: float, g: float=g) -> float:
    mul2 = mul * mul
    return g * mul2 * mul2 * (rhol - rhog) / (rhol * rhol * sigma * sigma * sigma)

def Knudsen(path: float, L: float) -> float:
    return path / L

def Prandtl(Cp: float | None=None, k: float | None=None, mu: float | None=None, nu: float | None=None, rho: float | None=None, alpha: float | None=None) -> float:
    if k is not None and Cp is not None and (mu is not None):
        return Cp * mu / k
    elif nu is not None and rho is not None and (Cp is not None) and (k is not None):
        return nu * rho * Cp / k
    elif nu is not None and alpha is not None:
        return nu / alpha
    else:
        raise ValueError('Insufficient information provided for Pr calculation')

def Grashof(L: float, beta: float, T1: float, T2: float=0, rho: float | None=None, mu: float | None=None, nu: float | None=None, g: float=g) -> float:
    if rho is not None and mu is not None:
        nu = mu / rho
    elif nu is None:
        raise ValueError('Either density and viscosity, or kinematic viscosity is needed')
    return g * beta * abs(T2 - T1) * L * L * L / (nu * nu)

def Bond(rhol: float, rhog: float, sigma: float, L: float) -> float:
    return g * (rhol - rhog) * L * L / sigma
Eotvos = Bond

def Rayleigh(Pr: float, Gr: float) -> float:
    return Pr * Gr

def Froude(V: float, L: float, g: float=g, squared: bool=False) -> float:
    Fr = V / sqrt(L * g)
    if squared:
        Fr *= Fr
    return Fr

def Froude_densimetric(V: float, L: float, rho1: float, rho2: float, heavy: bool=True, g: float=g) -> float:
    if heavy:
        rho3 = rho1
    else:
        rho3 = rho2
    return V / sqrt(g * L) * sqrt(rho3 / (rho1 - rho2))

def Strouhal(f: float, L: float, V: float) -> float:
    return f * L / V

def Nusselt(h: float, L: float, k: float) -> float:
    return h * L / k

def Sherwood(K: float, L: float, D: float) -> float:
    return K * L / D

def Biot(h: float, L: float, k: float) -> float:
    return h * L / k

def Stanton(h: float, V: float, rho: float, Cp: float) -> float:
    return h / (V * rho * Cp)

def Euler(dP: float, rho: float, V: float) -> float:
    return dP / (rho * V * V)

def Cavitation(P: float, Psat: float, rho: float, V: float) -> float:
    return (P - Psat) / (0.5 * rho * V * V)

def Eckert(V: float, Cp: float, dT: float) -> float:
    return V * V / (Cp * dT)

def Jakob(Cp: float, Hvap: float, Te: float) -> float:
    return Cp * Te / Hvap

def Power_number(P: float, L: float, N: float, rho: float) -> float:
    return P / (rho * N * N * N * L ** 5)

def Drag(F: float, A: float, V: float, rho: float) -> float:
    return F / (0.5 * A * rho * V * V)

def Stokes_number(V: float, Dp: float, D: float, rhop: float, mu: float) -> float:
    return rhop * V * (Dp * Dp) / (18.0 * mu * D)

def Capillary(V: float, mu: float, sigma: float) -> float:
    return V * mu / sigma

def Archimedes(L: float, rhof: float, rhop: float, mu: float, g: float=g) -> float:
    return L * L * L * rhof * (rhop - rhof) * g / (mu * mu)

def Ohnesorge(L: float, rho: float, mu: float, sigma: float) -> float:
    return mu / sqrt(L * rho * sigma)

def Suratman(L: float, rho: float, mu: float, sigma: float) -> float:
    return rho * sigma * L / (mu * mu)

def Hagen(Re: float, fd: float) -> float:
    return 0.5 * fd * Re * Re

def Bejan_L(dP: float, L: float, mu: float, alpha: float) -> float:
    return dP * L * L / (alpha * mu)

def Bejan_p(dP: float, K: float, mu: float, alpha: float) -> float:
    return dP * K / (alpha * mu)

def Boiling(G: float, q: float, Hvap: float) -> float:
    return q / (G * Hvap)

def Dean(Re: float, Di: float, D: float) -> float:
    return sqrt(Di / D) * Re

def relative_roughness(D: float, roughness: float=1.52e-06) -> float:
    return roughness / D

def nu_mu_converter(rho: float, mu: float | None=None, nu: float | None=None) -> float:
    if mu is not None and nu is None:
        return mu / rho
    elif nu is not None and mu is None:
        return nu * rho
    raise ValueError('Inputs must be rho and one of mu and nu.')

def gravity(latitude: float, H: float) -> float:
    lat = latitude * pi / 180
    g = 9.780356 * (1 + 0.0052885 * sin(lat) ** 2 - 5.9e-06 * sin(2 * lat) ** 2) - 3.086e-06 * H
    return g

def K_from_f(fd: float, L: float, D: float) -> float:
    return fd * L / D

def f_from_K(K: float, L: float, D: float) -> float:
    return K * D / L

def K_from_L_equiv(L_D: float, fd: float=0.015) -> float:
    return fd * L_D

def L_equiv_from_K(K: float, fd: float=0.015) -> float:
    return K / fd

def L_from_K(K: float, D: float, fd: float=0.015) -> float:
    return K * D / fd

def dP_from_K(K: float, rho: float, V: float) -> float:
    return K * 0.5 * rho * V * V

def head_from_K(K: float, V: float, g: float=g) -> float:
    return K * 0.5 * V * V / g

def head_from_P(P: float, rho: float, g: float=g) -> float:
    return P / rho / g

def P_from_head(head: float, rho: float, g: float=g) -> float:
    return head * rho * g
alpha = thermal_diffusivity
Pr = Prandtl
zero_Celsius = 273.15
degree_Fahrenheit = 1.0 / 1.8

def C2K(C: float) -> float:
    return C + zero_Celsius

def K2C(K: float) -> float:
    return K - zero_Celsius

def F2C(F: float) -> float:
    return (F - 32.0) / 1.8

def C2F(C: float) -> float:
    return 1.8 * C + 32.0

def F2K(F: float) -> float:
    return (F - 32.0) / 1.8 + zero_Celsius

def K2F(K: float) -> float:
    return 1.8 * (K - zero_Celsius) + 32.0

def C2R(C: float) -> float:
    return 1.8 * (C + zero_Celsius)

def K2R(K: float) -> float:
    return 1.8 * K

def F2R(F: float) -> float:
    return F - 32.0 + 1.8 * zero_Celsius

def R2C(Ra: float) -> float:
    return Ra / 1.8 - zero_Celsius

def R2K(Ra: float) -> float:
    return Ra / 1.8

def R2F(Ra: float) -> float:
    return Ra - 1.8 * zero_Celsius + 32.0

def Engauge_2d_parser(lines, flat=False):
    z_values = []
    x_lists = []
    y_lists = []
    working_xs = []
    working_ys = []
    new_curve = True
    for line in lines:
        if line.strip() == '':
            new_curve = True
        elif new_curve:
            z = float(line.split(',')[1])
            z_values.append(z)
            if working_xs and working_ys:
                x_lists.append(working_xs)
                y_lists.append(working_ys)
            working_xs = []
            working_ys = []
            new_curve = False
        else:
            x, y = (float(i) for i in line.strip().split(','))
            working_xs.append(x)
            working_ys.append(y)
    x_lists.append(working_xs)
    y_lists.append(working_ys)
    if flat:
        all_zs = []
        all_xs = []
        all_ys = []
        for z, xs, ys in zip(z_values, x_lists, y_lists):
            for x, y in zip(xs, ys):
                all_zs.append(z)
                all_xs.append(x)
                all_ys.append(y)
        return (all_zs, all_xs, all_ys)
    return (z_values, x_lists, y_lists)
