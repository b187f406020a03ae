"""The field table of VITA 49.2 indicator fields CIF0, CIF1 and CIF2 as the generated packets carry
them: which indicator bit announces a field, and how the field looks on the wire.  Written from the
standard's tables, not from the code."""
from . import libspec

class Fd:
    """One field.  kind: fx (fixed point), int, enum, struct, var (variable length), uuid"""
    def __init__(self, cif, name, bit, kind, bits=32, radix=0, signed=True, reserved=0, cpp=None, key=None):
        self.cif, self.name, self.bit, self.kind = cif, name, bit, kind
        self.bits, self.radix, self.signed, self.reserved = bits, radix, signed, reserved
        self.cpp, self.spec = cpp, None
        if kind == 'struct':
            self.spec = STRUCTS[key or cpp]
            self.cpp, self.bits = self.spec.cpp, self.spec.words * 32
    @property
    def scalar(self):
        return self.kind in ('fx', 'int', 'enum')
    def __repr__(self):
        return 'Fd(%s)' % self.name

STRUCTS = {s.name: s for s in libspec.FIELDS + libspec.PROLOGUE + libspec.INDICATORS}
STRUCTS['StateEventIndicators'] = [s for s in libspec.PROLOGUE if s.name == 'StateEventIndicators'][0]
P = 'vrtgen::packing::'

def bits_of(text):
    return {n: int(b) for n, b in (x.split(':') for x in text.split())}
B0, B1, B2 = bits_of(libspec.CIF0_BITS), bits_of(libspec.CIF1_BITS), bits_of(libspec.CIF2_BITS)

FIELDS = {}
def add(cif, name, *a, **k):
    f = Fd(cif, name, (B0, B1, B2)[cif][name], *a, **k)
    FIELDS[name if (cif, name) not in (((2, 'controllee_id')), ((2, 'controller_id'))) else name] = f

def fx(cif, names, bits, radix, reserved=0):
    for n in names.split():
        add(cif, n, 'fx', bits, radix, True, reserved)
def ints(cif, names, bits, signed=False, reserved=0):
    for n in names.split():
        add(cif, n, 'int', bits, 0, signed, reserved)
def struct(cif, **kw):
    for n, key in kw.items():
        add(cif, n, 'struct', key=key)

ints(0, 'reference_point_id timestamp_calibration_time ephemeris_ref_id', 32)
fx(0, 'bandwidth if_ref_frequency rf_ref_frequency rf_ref_frequency_offset if_band_offset sample_rate', 64, 20)
fx(0, 'reference_level', 16, 7, 16)
fx(0, 'temperature', 16, 6, 16)
ints(0, 'over_range_count', 32, True)
ints(0, 'timestamp_adjustment', 64, True)
struct(0, gain='Gain', device_id='DeviceIdentifier', state_event_indicators='StateEventIndicators',
       signal_data_format='PayloadFormat', formatted_gps='Geolocation', formatted_ins='Geolocation',
       ecef_ephemeris='Ephemeris', relative_ephemeris='Ephemeris')
add(0, 'gps_ascii', 'var', cpp=P + 'GPS_ASCII')
add(0, 'context_association_lists', 'var', cpp=P + 'ContextAssociationLists')

fx(1, 'phase_offset compression_point', 16, 7, 16)
ints(1, 'spatial_scan_type health_status', 16, False, 16)
fx(1, 'range', 32, 6)
fx(1, 'aux_frequency aux_bandwidth buffer_size', 64, 20)
struct(1, polarization='Polarization', pointing_vector='PointingVector', beam_width='BeamWidth', ebno_ber='EbNoBER',
       threshold='Threshold', intercept_points='InterceptPoints', snr_noise_figure='SNRNoise', aux_gain='Gain',
       spectrum='Spectrum', version_information='VersionInformation')
add(1, 'sector_step_scan', 'var')
add(1, 'index_list', 'var')
ints(1, 'discrete_io_32', 32)
ints(1, 'discrete_io_64', 64)
add(1, 'v49_spec_compliance', 'enum', 32, cpp=P + 'V49StandardCompliance')

for _n in B2:
    if _n.endswith('_uuid'):
        add(2, _n, 'uuid', 128, cpp='vrtgen::UUID')
    else:
        add(2, _n, 'int', 32, 0, False)

REF_LEVEL_DIFI = STRUCTS['ReferenceLevel']
BUFFER_SIZE_DIFI = STRUCTS['BufferSize']
# order on the wire inside a CIF: highest indicator bit first
ORDER = {c: sorted([f for f in FIELDS.values() if f.cif == c], key=lambda f: -f.bit) for c in (0, 1, 2)}
CIF7_ATTRS = [n for n in bits_of(libspec.CIF7_BITS)]
CIF7_BIT = bits_of(libspec.CIF7_BITS)
