__all__ = ['ap_array', 'nrlmsise_flags', 'nrlmsise_input', 'nrlmsise_output']

class nrlmsise_flags:

    def __init__(self):
        self.switches = [0.0] * 24
        self.sw = [0.0] * 24
        self.swc = [0.0] * 24

class ap_array:

    def __init__(self):
        self.a = [0.0] * 7

class nrlmsise_input:

    def __init__(self, year=0, doy=0, sec=0.0, alt=0.0, g_lat=0.0, g_long=0.0, lst=0.0, f107A=0.0, f107=0.0, ap=0.0, ap_a=None):
        self.year = year
        self.doy = doy
        self.sec = sec
        self.alt = alt
        self.g_lat = g_lat
        self.g_long = g_long
        self.lst = lst
        self.f107A = f107A
        self.f107 = f107
        self.ap = ap
        self.ap_a = ap_a

class nrlmsise_output:

    def __init__(self):
        self.d = [0.0] * 9
        self.t = [0.0] * 2
'\n/* GTD7 */\n/*   Neutral Atmosphere Empircial Model from the surface to lower\n *   exosphere.\n */\n\n/* GTD7D */\n/*   This subroutine provides Effective Total Mass Density for output\n *   d[5] which includes contributions from "anomalous oxygen" which can\n *   affect satellite drag above 500 km. See the section "output" for\n *   additional details.\n */\n\n /* GTS7 */\n/*   Thermospheric portion of NRLMSISE-00\n */\n\n /* GHP7 */\n/*   To specify outputs at a pressure level (press) rather than at\n *   an altitude.\n */\n '
