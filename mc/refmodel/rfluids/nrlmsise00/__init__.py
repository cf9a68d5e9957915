from . import nrlmsise_00, nrlmsise_00_data, nrlmsise_00_header
from .nrlmsise_00 import gtd7
from .nrlmsise_00_header import ap_array, nrlmsise_flags, nrlmsise_input, nrlmsise_output
__all__ = ['ap_array', 'gtd7', 'nrlmsise_00', 'nrlmsise_00_data', 'nrlmsise_00_header', 'nrlmsise_flags', 'nrlmsise_input', 'nrlmsise_output']
__all__.extend(nrlmsise_00.__all__)
__all__.extend(nrlmsise_00_header.__all__)
