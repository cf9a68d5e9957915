from math import exp, log
from rfluids.numerics.special import trunc_exp
__all__ = ['exp_horner_backwards', 'exp_horner_backwards_and_der', 'exp_horner_backwards_and_der2', 'exp_horner_backwards_and_der3', 'exp_horner_backwards_ln_tau', 'exp_horner_backwards_ln_tau_and_der', 'exp_horner_backwards_ln_tau_and_der2', 'exp_horner_stable', 'exp_horner_stable_and_der', 'exp_horner_stable_and_der2', 'exp_horner_stable_and_der3', 'exp_horner_stable_ln_tau', 'exp_horner_stable_ln_tau_and_der', 'exp_horner_stable_ln_tau_and_der2', 'horner', 'horner_and_der', 'horner_and_der2', 'horner_and_der3', 'horner_and_der4', 'horner_backwards', 'horner_backwards_ln_tau', 'horner_backwards_ln_tau_and_der', 'horner_backwards_ln_tau_and_der2', 'horner_backwards_ln_tau_and_der3', 'horner_domain', 'horner_log', 'horner_stable', 'horner_stable_and_der', 'horner_stable_and_der2', 'horner_stable_and_der3', 'horner_stable_and_der4', 'horner_stable_ln_tau', 'horner_stable_ln_tau_and_der', 'horner_stable_ln_tau_and_der2', 'horner_stable_ln_tau_and_der3', 'horner_stable_log']

def horner(coeffs, x):
    tot = 0.0
    for c in coeffs:
        tot = tot * x + c
    return tot

def horner_and_der(coeffs, x):
    f = 0.0
    der = 0.0
    for a in coeffs:
        der = x * der + f
        f = x * f + a
    return (f, der)

def horner_and_der2(coeffs, x):
    f, der, der2 = (0.0, 0.0, 0.0)
    for a in coeffs:
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    return (f, der, der2 + der2)

def horner_and_der3(coeffs, x):
    f, der, der2, der3 = (0.0, 0.0, 0.0, 0.0)
    for a in coeffs:
        der3 = x * der3 + der2
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    return (f, der, der2 + der2, der3 * 6.0)

def horner_and_der4(coeffs, x):
    f, der, der2, der3, der4 = (0.0, 0.0, 0.0, 0.0, 0.0)
    for a in coeffs:
        der4 = x * der4 + der3
        der3 = x * der3 + der2
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    return (f, der, der2 + der2, der3 * 6.0, der4 * 24.0)

def horner_backwards(x, coeffs):
    return horner(coeffs, x)

def exp_horner_backwards(x, coeffs):
    return exp(horner(coeffs, x))

def exp_horner_backwards_and_der(x, coeffs):
    poly_val, poly_der = horner_and_der(coeffs, x)
    val = exp(poly_val)
    der = poly_der * val
    return (val, der)

def exp_horner_backwards_and_der2(x, coeffs):
    poly_val, poly_der, poly_der2 = horner_and_der2(coeffs, x)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    return (val, der, der2)

def exp_horner_backwards_and_der3(x, coeffs):
    poly_val, poly_der, poly_der2, poly_der3 = horner_and_der3(coeffs, x)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    der3 = (poly_der * poly_der * poly_der + 3.0 * poly_der * poly_der2 + poly_der3) * val
    return (val, der, der2, der3)

def horner_backwards_ln_tau(T, Tc, coeffs):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    return horner(coeffs, lntau)

def horner_backwards_ln_tau_and_der(T, Tc, coeffs):
    if T >= Tc:
        return (0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val, poly_der = horner_and_der(coeffs, lntau)
    der = -poly_der / (Tc * (-T / Tc + 1))
    return (val, der)

def horner_backwards_ln_tau_and_der2(T, Tc, coeffs):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val, poly_der, poly_der2 = horner_and_der2(coeffs, lntau)
    der = -poly_der / (Tc * (-T / Tc + 1))
    der2 = (-poly_der + poly_der2) / (Tc ** 2 * (T / Tc - 1) ** 2)
    return (val, der, der2)

def horner_backwards_ln_tau_and_der3(T, Tc, coeffs):
    if T >= Tc:
        return (0.0, 0.0, 0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val, poly_der, poly_der2, poly_der3 = horner_and_der3(coeffs, lntau)
    der = -poly_der / (Tc * (-T / Tc + 1))
    der2 = (-poly_der + poly_der2) / (Tc ** 2 * (T / Tc - 1) ** 2)
    der3 = (2.0 * poly_der - 3.0 * poly_der2 + poly_der3) / (Tc ** 3 * (T / Tc - 1) ** 3)
    return (val, der, der2, der3)

def exp_horner_backwards_ln_tau(T, Tc, coeffs):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    return exp(horner(coeffs, lntau))

def exp_horner_backwards_ln_tau_and_der(T, Tc, coeffs):
    if T >= Tc:
        return (0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val, poly_der_val = horner_and_der(coeffs, lntau)
    val = exp(poly_val)
    return (val, -val * poly_der_val / (Tc * tau))

def exp_horner_backwards_ln_tau_and_der2(T, Tc, coeffs):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val, poly_val_der, poly_val_der2 = horner_and_der2(coeffs, lntau)
    val = exp(poly_val)
    temp = 1.0 / (Tc * tau)
    der = -temp * val * poly_val_der
    der2 = (poly_val_der * poly_val_der - poly_val_der + poly_val_der2) * val * (temp * temp)
    return (val, der, der2)

def horner_domain(x, coeffs, xmin, xmax):
    range_inv = 1.0 / (xmax - xmin)
    off = (-xmax - xmin) * range_inv
    scl = 2.0 * range_inv
    x = off + scl * x
    tot = 0.0
    for c in coeffs:
        tot = tot * x + c
    return tot

def horner_stable(x, coeffs, offset, scale):
    x = offset + scale * x
    tot = 0.0
    for c in coeffs:
        tot = tot * x + c
    return tot

def horner_stable_and_der(x, coeffs, offset, scale):
    x = offset + scale * x
    f = 0.0
    der = 0.0
    for a in coeffs:
        der = x * der + f
        f = x * f + a
    return (f, der * scale)

def horner_stable_and_der2(x, coeffs, offset, scale):
    x = offset + scale * x
    f, der, der2 = (0.0, 0.0, 0.0)
    for a in coeffs:
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    return (f, der * scale, scale * scale * (der2 + der2))

def horner_stable_and_der3(x, coeffs, offset, scale):
    x = offset + scale * x
    f, der, der2, der3 = (0.0, 0.0, 0.0, 0.0)
    for a in coeffs:
        der3 = x * der3 + der2
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    scale2 = scale * scale
    return (f, der * scale, scale2 * (der2 + der2), scale2 * scale * der3 * 6.0)

def horner_stable_and_der4(x, coeffs, offset, scale):
    x = offset + scale * x
    f, der, der2, der3, der4 = (0.0, 0.0, 0.0, 0.0, 0.0)
    for a in coeffs:
        der4 = x * der4 + der3
        der3 = x * der3 + der2
        der2 = x * der2 + der
        der = x * der + f
        f = x * f + a
    scale2 = scale * scale
    return (f, der * scale, scale2 * (der2 + der2), scale2 * scale * der3 * 6.0, scale2 * scale2 * der4 * 24.0)

def horner_stable_ln_tau(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    return horner_stable(lntau, coeffs, offset, scale)

def horner_stable_ln_tau_and_der(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val, poly_der = horner_stable_and_der(lntau, coeffs, offset, scale)
    der = -poly_der / (Tc * (-T / Tc + 1))
    return (val, der)

def horner_stable_ln_tau_and_der2(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    val, poly_der, poly_der2 = horner_stable_and_der2(lntau, coeffs, offset, scale)
    den = 1.0 / (Tc * tau)
    der = -poly_der * den
    der2 = (-poly_der + poly_der2) * den * den
    return (val, der, der2)

def horner_stable_ln_tau_and_der3(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0, 0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    val, poly_der, poly_der2, poly_der3 = horner_stable_and_der3(lntau, coeffs, offset, scale)
    den = 1.0 / (Tc * tau)
    der = -poly_der * den
    der2 = (-poly_der + poly_der2) * den * den
    der3 = -(2.0 * poly_der - 3.0 * poly_der2 + poly_der3) * den * den * den
    return (val, der, der2, der3)

def exp_horner_stable(x, coeffs, offset, scale):
    return trunc_exp(horner_stable(x, coeffs, offset, scale))

def exp_horner_stable_and_der(x, coeffs, offset, scale):
    poly_val, poly_der = horner_stable_and_der(x, coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    return (val, der)

def exp_horner_stable_and_der2(x, coeffs, offset, scale):
    poly_val, poly_der, poly_der2 = horner_stable_and_der2(x, coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    return (val, der, der2)

def exp_horner_stable_and_der3(x, coeffs, offset, scale):
    poly_val, poly_der, poly_der2, poly_der3 = horner_stable_and_der3(x, coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    der3 = (poly_der * poly_der * poly_der + 3.0 * poly_der * poly_der2 + poly_der3) * val
    return (val, der, der2, der3)

def exp_horner_stable_ln_tau(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    return trunc_exp(horner_stable(lntau, coeffs, offset, scale))

def exp_horner_stable_ln_tau_and_der(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val, poly_der_val = horner_stable_and_der(lntau, coeffs, offset, scale)
    val = trunc_exp(poly_val)
    return (val, -val * poly_der_val / (Tc * tau))

def exp_horner_stable_ln_tau_and_der2(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val, poly_val_der, poly_val_der2 = horner_stable_and_der2(lntau, coeffs, offset, scale)
    val = trunc_exp(poly_val)
    der = -val * poly_val_der / (Tc * tau)
    der2 = (poly_val_der * poly_val_der - poly_val_der + poly_val_der2) * val / (Tc * Tc * (tau * tau))
    return (val, der, der2)

def horner_log(coeffs, log_coeff, x):
    tot = 0.0
    for c in coeffs:
        tot = tot * x + c
    return tot + log_coeff * log(x)

def horner_stable_log(x, coeffs, offset, scale, log_coeff):
    tot = horner_stable(x, coeffs, offset, scale)
    return tot + log_coeff * log(x)
