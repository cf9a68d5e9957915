from __future__ import annotations
import datetime
from math import cos, exp, pi, radians, sin, sqrt
from typing import Callable
from rfluids.constants import N_A, R, au
from rfluids.numerics import quad, secant
__all__: list[str] = ['ATMOSPHERE_1976', 'ATMOSPHERE_NRLMSISE00', 'airmass', 'earthsun_distance', 'solar_irradiation', 'solar_position', 'sunrise_sunset']
H_std = [0.0, 11000.0, 20000.0, 32000.0, 47000.0, 51000.0, 71000.0, 84852.0]
T_grad = [-0.0065, 0.0, 0.001, 0.0028, 0.0, -0.0028, -0.002, 0.0]
T_std = [288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.946]
P_std = [101325, 22632.06397346291, 5474.8886696777745, 868.0186847552279, 110.90630555496608, 66.93887311868738, 3.956420428040732, 0.3733835899762159]
r0 = 6356766.0
P0 = 101325.0
M0 = 28.9644
g0 = 9.80665
gamma = 1.4

def H_for_P_ATMOSPHERE_1976_err(H: float, P1: float) -> float:
    return ATMOSPHERE_1976(H, 0.0).P - P1

def to_int_dP_ATMOSPHERE_1976(Z: float, dT: float) -> float:
    atm = ATMOSPHERE_1976(Z, dT)
    return atm.g * atm.rho

class ATMOSPHERE_1976:

    def __init__(self, Z: float, dT: float=0.0) -> None:
        self.Z = Z
        self.dT = dT
        self.H = r0 * Z / (r0 + Z)
        i = self._get_ind_from_H(self.H)
        self.T_layer = T_std[i]
        self.T_increase = T_grad[i]
        self.P_layer = P_std[i]
        self.H_layer = H_std[i]
        self.H_above_layer = self.H - self.H_layer
        self.T = self.T_layer + self.T_increase * self.H_above_layer
        R = 8314.32
        if self.T_increase == 0.0:
            self.P = self.P_layer * exp(-g0 * M0 * self.H_above_layer / (R * self.T_layer))
        else:
            self.P = self.P_layer * (self.T_layer / self.T) ** (g0 * M0 / (R * self.T_increase))
        self.T += dT
        self.rho = self.density(self.T, self.P)
        self.v_sonic = self.sonic_velocity(self.T)
        self.mu = self.viscosity(self.T)
        self.k = self.thermal_conductivity(self.T)
        self.g = self.gravity(self.Z)

    @staticmethod
    def _get_ind_from_H(H: float) -> int:
        if H <= 0.0:
            return 0
        for ind, Hi in enumerate(H_std):
            if Hi >= H:
                return ind - 1
        return 7

    @staticmethod
    def thermal_conductivity(T: float) -> float:
        return 0.00264638 * T * sqrt(T) / (T + 245.4 * exp(-27.63102111592855 / T))

    @staticmethod
    def viscosity(T: float) -> float:
        return 1.458e-06 * T * sqrt(T) / (T + 110.4)

    @staticmethod
    def density(T: float, P: float) -> float:
        return P * 0.00348367635597379 / T

    @staticmethod
    def sonic_velocity(T: float) -> float:
        return sqrt(401.87430086589046 * T)

    @staticmethod
    def gravity(Z: float) -> float:
        x0 = r0 / (r0 + Z)
        return g0 * x0 * x0

    @staticmethod
    def pressure_integral(T1: float, P1: float, dH: float) -> float:
        H_ref = secant(H_for_P_ATMOSPHERE_1976_err, x0=10.0, low=-610.0, high=86000.0, bisection=True, args=(P1,))
        dT = T1 - ATMOSPHERE_1976(H_ref, 0.0).T
        return quad(to_int_dP_ATMOSPHERE_1976, H_ref, H_ref + dH, args=(dT,))[0]

class ATMOSPHERE_NRLMSISE00:
    components = ['N2', 'O2', 'Ar', 'He', 'O', 'H', 'N']
    attrs = ['N2_density', 'O2_density', 'Ar_density', 'He_density', 'O_density', 'H_density', 'N_density']
    MWs = [28.0134, 31.9988, 39.948, 4.002602, 15.9994, 1.00794, 14.0067]

    def __init__(self, Z: float, latitude: float=0.0, longitude: float=0.0, day: int=0, seconds: float=0.0, f107: float=150.0, f107_avg: float=150.0, geomagnetic_disturbance_indices: None=None) -> None:
        self.Z = Z
        self.latitude = latitude
        self.longitude = longitude
        self.day = day
        self.seconds = seconds
        self.f107 = f107
        self.f107_avg = f107_avg
        self.geomagnetic_disturbance_indices = geomagnetic_disturbance_indices
        from rfluids.nrlmsise00 import ap_array, gtd7, nrlmsise_flags, nrlmsise_input, nrlmsise_output
        alt = Z * 0.001
        output_obj = nrlmsise_output()
        input_obj = nrlmsise_input()
        flags = nrlmsise_flags()
        flags.switches = [0] + [1] * 23
        if geomagnetic_disturbance_indices:
            aph = ap_array()
            aph.a = geomagnetic_disturbance_indices
            flags.switches[9] = -1
            input_obj.ap = geomagnetic_disturbance_indices[0]
            input_obj.ap_a = aph
        input_obj.doy = day
        input_obj.year = 0
        input_obj.sec = seconds
        input_obj.alt = alt
        input_obj.g_lat = latitude
        input_obj.g_long = longitude
        input_obj.lst = seconds / 3600.0 + longitude / 15.0
        input_obj.f107A = f107_avg
        input_obj.f107 = f107
        gtd7(input_obj, flags, output_obj)
        self.He_density = output_obj.d[0] * 1000000.0
        self.O_density = output_obj.d[1] * 1000000.0
        self.N2_density = output_obj.d[2] * 1000000.0
        self.O2_density = output_obj.d[3] * 1000000.0
        self.Ar_density = output_obj.d[4] * 1000000.0
        self.rho = output_obj.d[5] * 1000
        self.H_density = output_obj.d[6] * 1000000.0
        self.N_density = output_obj.d[7] * 1000000.0
        self.O_anomalous_density = output_obj.d[8] * 1000000.0
        self.T_exospheric = output_obj.t[0]
        self.T = output_obj.t[1]
        self.P = sum([getattr(self, a) for a in self.attrs]) * self.T * R / N_A
        self.rho_calculated = sum([getattr(self, a) * MW for a, MW in zip(self.attrs, self.MWs)]) / (1000.0 * N_A)
        self.particle_density = sum((getattr(self, a) for a in self.attrs))
        self.zs = [getattr(self, a) / self.particle_density for a in self.attrs]

def to_int_airmass(Z: float, c1: float, c2: float, angle_term: float, R_planet_inv: float, func: Callable) -> float:
    rho = func(Z)
    t1 = c2 - rho * c1
    x0 = angle_term / (1.0 + Z * R_planet_inv)
    t2 = x0 * x0
    t3 = 1.0 / sqrt(1.0 - t1 * t2)
    return rho * t3

def airmass(func: Callable, angle: float, H_max: float=86400.0, R_planet: float=6371229.0, RI: float=1.000276) -> float:
    delta0 = RI - 1.0
    rho0_inv = 1.0 / func(0.0)
    angle_term = cos(radians(angle))
    R_planet_inv = 1.0 / R_planet
    c0 = delta0 + delta0
    c1 = c0 * rho0_inv
    c2 = 1.0 + c0
    return quad(to_int_airmass, 0.0, H_max, args=(c1, c2, angle_term, R_planet_inv, func))[0]
PVLIB_MISSING_MSG = 'The module pvlib is required for this function; install it first'

def earthsun_distance(moment: datetime.datetime) -> float:
    from rfluids.optional import spa
    delta_t = spa.calculate_deltat(moment.year, moment.month)
    import calendar
    unixtime = calendar.timegm(moment.utctimetuple())
    return spa.earthsun_distance(unixtime, delta_t=delta_t) * au

def solar_position(moment: datetime.datetime, latitude: float, longitude: float, Z: float=0.0, T: float=298.15, P: float=101325.0, atmos_refract: float=0.5667) -> list[float]:
    import calendar
    from rfluids.optional import spa
    tt = moment.utctimetuple()
    delta_t = spa.calculate_deltat(tt.tm_year, tt.tm_mon)
    unixtime = calendar.timegm(tt)
    result = spa.solar_position(unixtime, lat=latitude, lon=longitude, elev=Z, pressure=P * 0.01, temp=T - 273.15, delta_t=delta_t, atmos_refract=atmos_refract, sst=False)
    result[-1] = result[-1] * 60.0
    return result

def sunrise_sunset(moment: datetime.datetime, latitude: float, longitude: float) -> tuple[datetime.datetime, datetime.datetime, datetime.datetime]:
    import calendar
    from rfluids.optional import spa
    utc_offset = moment.utcoffset()
    if utc_offset is not None:
        moment_utc = moment + utc_offset
    else:
        moment_utc = moment
    delta_t = spa.calculate_deltat(moment_utc.year, moment_utc.month)
    ymd_moment_utc = datetime.datetime(moment_utc.year, moment_utc.month, moment_utc.day)
    unixtime = calendar.timegm(ymd_moment_utc.utctimetuple())
    unixtime = unixtime - unixtime % 86400
    transit, sunrise, sunset = spa.transit_sunrise_sunset(unixtime, lat=latitude, lon=longitude, delta_t=delta_t)
    transit = datetime.datetime.fromtimestamp(transit, datetime.timezone.utc).replace(tzinfo=None)
    sunrise = datetime.datetime.fromtimestamp(sunrise, datetime.timezone.utc).replace(tzinfo=None)
    sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc).replace(tzinfo=None)
    if moment.tzinfo is not None:
        sunrise = sunrise.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
        sunset = sunset.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
        transit = transit.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
    return (sunrise, sunset, transit)
apparent_zenith_airmass_models = {'simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'pickering2002'}
true_zenith_airmass_models = {'youngirvine1967', 'young1994'}

def _get_extra_radiation_shim(datetime_or_doy: int | datetime.datetime, solar_constant: float=1366.1, method: str='spencer', epoch_year: int=2014, **kwargs) -> float:
    if method == 'spencer':
        if not isinstance(datetime_or_doy, (float, int)):
            dayofyear = datetime_or_doy.timetuple().tm_yday
        else:
            dayofyear = datetime_or_doy
        B = 2.0 * pi / 365.0 * (dayofyear - 1)
        RoverR0sqrd = 1.00011 + 0.034221 * cos(B) + 0.00128 * sin(B) + 0.000719 * cos(2.0 * B) + 7.7e-05 * sin(2.0 * B)
        Ea = solar_constant * RoverR0sqrd
        return Ea
    from pvlib.irradiance import get_extra_radiation
    return get_extra_radiation(datetime_or_doy=datetime_or_doy, solar_constant=solar_constant, method=method, epoch_year=epoch_year, **kwargs)

def solar_irradiation(latitude: float, longitude: float, Z: float, moment: datetime.datetime, surface_tilt: float, surface_azimuth: float, T: None=None, P: None=None, solar_constant: float=1366.1, atmos_refract: float=0.5667, albedo: float=0.25, linke_turbidity: float | None=None, extraradiation_method: str='spencer', airmass_model: str='kastenyoung1989', cache: None=None) -> tuple[float, float, float, float, float]:
    from rfluids.optional.irradiance import get_absolute_airmass, get_relative_airmass, get_total_irradiance, ineichen
    moment_timetuple = moment.timetuple()
    moment_arg_dni = moment_timetuple.tm_yday if extraradiation_method == 'spencer' else moment
    dni_extra = _get_extra_radiation_shim(moment_arg_dni, solar_constant=solar_constant, method=extraradiation_method, epoch_year=moment.year)
    T_calc: float
    P_calc: float
    if T is None or P is None:
        atmosphere = ATMOSPHERE_NRLMSISE00(Z=Z, latitude=latitude, longitude=longitude, day=moment_timetuple.tm_yday)
        T_calc = atmosphere.T if T is None else T
        P_calc = atmosphere.P if P is None else P
    else:
        T_calc = T
        P_calc = P
    if cache is not None and 'zenith' in cache:
        zenith = cache['zenith']
        apparent_zenith = cache['apparent_zenith']
        azimuth = cache['azimuth']
    else:
        apparent_zenith, zenith, _, _, azimuth, _ = solar_position(moment=moment, latitude=latitude, longitude=longitude, Z=Z, T=T_calc, P=P_calc, atmos_refract=atmos_refract)
    if linke_turbidity is None:
        try:
            import pvlib
        except ImportError:
            raise ImportError(PVLIB_MISSING_MSG)
        import pandas as pd
        from pvlib.clearsky import lookup_linke_turbidity
        linke_turbidity = float(lookup_linke_turbidity(pd.DatetimeIndex([moment]), latitude, longitude).values)
    if airmass_model in apparent_zenith_airmass_models:
        used_zenith = apparent_zenith
    elif airmass_model in true_zenith_airmass_models:
        used_zenith = zenith
    else:
        raise ValueError('Unrecognized airmass model')
    relative_airmass = get_relative_airmass(used_zenith, model=airmass_model)
    airmass_absolute = get_absolute_airmass(relative_airmass, pressure=P_calc)
    ans = ineichen(apparent_zenith=apparent_zenith, airmass_absolute=airmass_absolute, linke_turbidity=linke_turbidity, altitude=Z, dni_extra=solar_constant, perez_enhancement=True)
    ghi = ans['ghi']
    dni = ans['dni']
    dhi = ans['dhi']
    ans = get_total_irradiance(surface_tilt=surface_tilt, surface_azimuth=surface_azimuth, solar_zenith=apparent_zenith, solar_azimuth=azimuth, dni=dni, ghi=ghi, dhi=dhi, dni_extra=dni_extra, airmass=airmass_absolute, albedo=albedo)
    poa_global = float(ans['poa_global'])
    poa_direct = float(ans['poa_direct'])
    poa_diffuse = float(ans['poa_diffuse'])
    poa_sky_diffuse = float(ans['poa_sky_diffuse'])
    poa_ground_diffuse = float(ans['poa_ground_diffuse'])
    return (poa_global, poa_direct, poa_diffuse, poa_sky_diffuse, poa_ground_diffuse)
