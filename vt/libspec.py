"""Independent description of the fixed-size structures of VITA 49.2 (and DIFI 1.2) that the
library implements: for every structure its length, and for every subfield the word it lives in, the
bit number of its most significant bit (31 = first on the wire) and its width.  Written from the
standard's figures, not from the code."""

from collections import namedtuple

# kind: u unsigned, b bool, e:<Enum> enumeration, f<radix> signed fixed point, uf<radix> unsigned fixed
#       point, s signed, m1 stored as value minus one, o:<enable bit>[:enum] optional with enable bit(s)
F = namedtuple('F', 'name word msb bits kind')

class S:
    def __init__(self, name, cpp, words, fields, default=None, group=''):
        self.name, self.cpp, self.words, self.group = name, cpp, words, group
        self.fields = [F(*f) for f in fields]
        self.default = default if default is not None else bytes(4 * words)

def bits(names):
    return [(n, 0, int(b), 1, 'b') for n, b in (x.split(':') for x in names.split())]

P = 'vrtgen::packing::'
HEADER = [('packet_type', 0, 31, 4, 'e:PacketType'), ('class_id_enable', 0, 27, 1, 'b'), ('tsi', 0, 23, 2, 'e:TSI'),
          ('tsf', 0, 21, 2, 'e:TSF'), ('packet_count', 0, 19, 4, 'u'), ('packet_size', 0, 15, 16, 'u')]
CAM = [('controllee_enable', 0, 31, 1, 'b'), ('controllee_format', 0, 30, 1, 'e:IdentifierFormat'),
       ('controller_enable', 0, 29, 1, 'b'), ('controller_format', 0, 28, 1, 'e:IdentifierFormat'),
       ('permit_partial', 0, 27, 1, 'b'), ('permit_warnings', 0, 26, 1, 'b'), ('permit_errors', 0, 25, 1, 'b'),
       ('action_mode', 0, 24, 2, 'e:ActionMode'), ('nack_only', 0, 22, 1, 'b'),
       ('timing_control', 0, 14, 3, 'e:TimestampControlMode')]
SEI = [(n, 0, 19 - i, 1, 'o:%d' % (31 - i)) for i, n in enumerate(
    'calibrated_time valid_data reference_lock agc_mgc detected_signal spectral_inversion over_range sample_loss'.split())]

PROLOGUE = [
    S('Header', P + 'Header', 1, HEADER),
    S('DataHeader', P + 'DataHeader', 1, HEADER + [('trailer_included', 0, 26, 1, 'b'), ('not_v49d0', 0, 25, 1, 'b'),
                                                   ('spectrum_or_time', 0, 24, 1, 'e:SPECTRUM_OR_TIME')]),
    S('ContextHeader', P + 'ContextHeader', 1, HEADER + [('not_v49d0', 0, 25, 1, 'b'), ('tsm', 0, 24, 1, 'e:TSM')]),
    S('CommandHeader', P + 'CommandHeader', 1, HEADER + [('acknowledge_packet', 0, 26, 1, 'b'),
                                                         ('cancellation_packet', 0, 24, 1, 'b')]),
    S('ClassIdentifier', P + 'ClassIdentifier', 2, [('pad_bits', 0, 31, 5, 'u'), ('oui', 0, 23, 24, 'u'),
                                                    ('information_code', 1, 31, 16, 'u'), ('packet_code', 1, 15, 16, 'u')]),
    S('Trailer', P + 'Trailer', 1, SEI + [('sample_frame', 0, 11, 2, 'o:23,2:SSI'),
                                          ('associated_context_packets_count', 0, 6, 7, 'o:7')]),
    S('StateEventIndicators', P + 'StateEventIndicators', 1, SEI),
    S('ControlCAM', P + 'ControlCAM', 1, CAM + [(n, 0, b, 1, 'b') for n, b in
      (('req_v', 20), ('req_x', 19), ('req_s', 18), ('req_w', 17), ('req_er', 16))]),
    S('AcknowledgeCAM', P + 'AcknowledgeCAM', 1, CAM + [(n, 0, b, 1, 'b') for n, b in
      (('ack_v', 20), ('ack_x', 19), ('ack_s', 18), ('ack_w', 17), ('ack_er', 16), ('partial_action', 11),
       ('scheduled_or_executed', 10))]),
]

CIF0_BITS = ('change_indicator:31 reference_point_id:30 bandwidth:29 if_ref_frequency:28 rf_ref_frequency:27 '
    'rf_ref_frequency_offset:26 if_band_offset:25 reference_level:24 gain:23 over_range_count:22 sample_rate:21 '
    'timestamp_adjustment:20 timestamp_calibration_time:19 temperature:18 device_id:17 state_event_indicators:16 '
    'signal_data_format:15 formatted_gps:14 formatted_ins:13 ecef_ephemeris:12 relative_ephemeris:11 '
    'ephemeris_ref_id:10 gps_ascii:9 context_association_lists:8')
CIF1_BITS = ('phase_offset:31 polarization:30 pointing_vector:29 pointing_vector_structure:28 spatial_scan_type:27 '
    'spatial_reference_type:26 beam_width:25 range:24 ebno_ber:20 threshold:19 compression_point:18 intercept_points:17 '
    'snr_noise_figure:16 aux_frequency:15 aux_gain:14 aux_bandwidth:13 array_of_cifs:11 spectrum:10 sector_step_scan:9 '
    'index_list:7 discrete_io_32:6 discrete_io_64:5 health_status:4 v49_spec_compliance:3 version_information:2 buffer_size:1')
CIF2_BITS = ('bind:31 cited_sid:30 sibling_sid:29 parent_sid:28 child_sid:27 cited_message_id:26 controllee_id:25 '
    'controllee_uuid:24 controller_id:23 controller_uuid:22 information_source:21 track_id:20 country_code:19 operator_id:18 '
    'platform_class:17 platform_instance:16 platform_display:15 ems_device_class:14 ems_device_type:13 '
    'ems_device_instance:12 modulation_class:11 modulation_type:10 function_id:9 mode_id:8 event_id:7 '
    'function_priority_id:6 communication_priority_id:5 rf_footprint:4 rf_footprint_range:3')
CIF3_BITS = ('timestamp_details:31 timestamp_skew:30 rise_time:27 fall_time:26 offset_time:25 pulse_width:24 period:23 '
    'duration:22 dwell:21 jitter:20 age:17 shelf_life:16 air_temperature:7 sea_ground_temperature:6 humidity:5 '
    'barometric_pressure:4 sea_swell_state:3 tropospheric_state:2 network_id:1')
CIF7_BITS = ('current_value:31 mean_value:30 median_value:29 standard_deviation:28 max_value:27 min_value:26 precision:25 '
    'accuracy:24 first_derivative:23 second_derivative:22 third_derivative:21 probability:20 belief:19')
WE_BITS = ('field_not_executed:31 device_failure:30 erroneous_field:29 parameter_out_of_range:28 '
    'parameter_unsupported_precision:27 field_value_invalid:26 timestamp_problem:25 hazardous_power_levels:24 distortion:23 '
    'in_band_power_compliance:22 out_of_band_power_compliance:21 cosite_interference:20 regional_interference:19')
def en(p):
    return ' {0}7_enable:7 {0}3_enable:3 {0}2_enable:2 {0}1_enable:1'.format(p)

INDICATORS = [
    S('CIF0', P + 'CIF0', 1, bits(CIF0_BITS + en('cif'))), S('CIF1', P + 'CIF1', 1, bits(CIF1_BITS)),
    S('CIF2', P + 'CIF2', 1, bits(CIF2_BITS)), S('CIF7', P + 'CIF7', 1, bits(CIF7_BITS)),
    S('IndicatorField3', P + 'IndicatorField3', 1, bits(CIF3_BITS)),
    S('WIF0', P + 'WIF0', 1, bits(CIF0_BITS + en('wif'))), S('EIF0', P + 'EIF0', 1, bits(CIF0_BITS + en('eif'))),
    S('WEIF1', P + 'WEIF1', 1, bits(CIF1_BITS)), S('WEIF2', P + 'WEIF2', 1, bits(CIF2_BITS)),
    S('WEIF3', P + 'WEIF3', 1, bits(CIF3_BITS)), S('WEIF7', P + 'WEIF7', 1, bits(CIF7_BITS)),
    S('WarningErrorFields', P + 'WarningErrorFields', 1, bits(WE_BITS)),
    S('SectorStepScanCIF', P + 'SectorStepScanCIF', 1, bits('sector_number:31 f1_start_frequency:30 f2_stop_frequency:29 '
      'resolution_bandwidth:28 tune_step_size:27 number_points:26 default_gain:25 threshold:24 dwell_time:23 start_time:22 '
      'time_3:21 time_4:20')),
]

def pair(name, cpp, hi, lo, r, lo_kind=None, default=None):
    return S(name, P + cpp, 1, [(hi, 0, 31, 16, 'f%d' % r), (lo, 0, 15, 16, lo_kind or 'f%d' % r)], default)

def unspecified(n32):
    return b'\x00' * 4 + b'\xff' * 12 + b'\x7f\xff\xff\xff' * n32

_geo_hdr = [('tsi', 0, 27, 2, 'e:TSI'), ('tsf', 0, 25, 2, 'e:TSF'), ('manufacturer_oui', 0, 23, 24, 'u'),
            ('integer_timestamp', 1, 31, 32, 'u'), ('fractional_timestamp', 2, 31, 64, 'u')]
FIELDS = [
    pair('Gain', 'Gain', 'stage_2', 'stage_1', 7),
    pair('ReferenceLevel', 'difi::ReferenceLevel', 'scaling_level', 'reference_level', 7),
    pair('Polarization', 'Polarization', 'tilt_angle', 'ellipticity_angle', 13),
    pair('PointingVector', 'PointingVector', 'elevation_angle', 'azimuthal_angle', 7, 'uf7'),
    pair('BeamWidth', 'BeamWidth', 'horizontal', 'vertical', 7),
    pair('EbNoBER', 'EbNoBER', 'ebno', 'ber', 7, default=b'\x7f\xff\x7f\xff'),
    pair('Threshold', 'Threshold', 'stage_2', 'stage_1', 7),
    pair('InterceptPoints', 'InterceptPoints', 'second_order', 'third_order', 7),
    pair('SNRNoise', 'SNRNoise', 'snr', 'noise', 7, default=b'\x7f\xff\x00\x00'),
    S('DeviceIdentifier', P + 'DeviceIdentifier', 2, [('manufacturer_oui', 0, 23, 24, 'u'), ('device_code', 1, 15, 16, 'u')]),
    S('Geolocation', P + 'Geolocation', 11, _geo_hdr + [
        ('latitude', 4, 31, 32, 'f22'), ('longitude', 5, 31, 32, 'f22'), ('altitude', 6, 31, 32, 'f5'),
        ('speed_over_ground', 7, 31, 32, 'f16'), ('heading_angle', 8, 31, 32, 'f22'), ('track_angle', 9, 31, 32, 'f22'),
        ('magnetic_variation', 10, 31, 32, 'f22')], unspecified(7)),
    S('Ephemeris', P + 'Ephemeris', 13, _geo_hdr + [
        ('position_x', 4, 31, 32, 'f5'), ('position_y', 5, 31, 32, 'f5'), ('position_z', 6, 31, 32, 'f5'),
        ('attitude_alpha', 7, 31, 32, 'f22'), ('attitude_beta', 8, 31, 32, 'f22'), ('attitude_phi', 9, 31, 32, 'f22'),
        ('velocity_dx', 10, 31, 32, 'f16'), ('velocity_dy', 11, 31, 32, 'f16'), ('velocity_dz', 12, 31, 32, 'f16')],
        unspecified(9)),
    S('PayloadFormat', P + 'PayloadFormat', 2, [
        ('packing_method', 0, 31, 1, 'e:PackingMethod'), ('real_complex_type', 0, 30, 2, 'e:DataSampleType'),
        ('data_item_format', 0, 28, 5, 'e:DataItemFormat'), ('repeat_indicator', 0, 23, 1, 'b'),
        ('event_tag_size', 0, 22, 3, 'u'), ('channel_tag_size', 0, 19, 4, 'u'), ('data_item_fraction_size', 0, 15, 4, 'u'),
        ('item_packing_field_size', 0, 11, 6, 'm1'), ('data_item_size', 0, 5, 6, 'm1'),
        ('repeat_count', 1, 31, 16, 'm1'), ('vector_size', 1, 15, 16, 'm1')]),
    S('Spectrum', P + 'Spectrum', 13, [
        ('window_time', 0, 19, 4, 'e:WindowTimeDelta'), ('averaging_type', 0, 15, 8, 'e:AveragingType'),
        ('spectrum_type', 0, 7, 8, 'e:SpectrumType'), ('window_type', 1, 7, 8, 'e:WindowType'),
        ('num_transform_points', 2, 31, 32, 'u'), ('num_window_points', 3, 31, 32, 'u'),
        ('resolution', 4, 31, 64, 'p20'), ('span', 6, 31, 64, 'p20'), ('num_averages', 8, 31, 32, 'u'),
        ('weighting_factor', 9, 31, 32, 'u'), ('f1_index', 10, 31, 32, 's'), ('f2_index', 11, 31, 32, 's'),
        ('window_time_delta', 12, 31, 32, 'u')]),
    S('VersionInformation', P + 'VersionInformation', 1, [('year', 0, 31, 7, 'u'), ('day', 0, 24, 9, 'u'),
                                                          ('revision', 0, 15, 6, 'u'), ('user_defined', 0, 9, 10, 'u')]),
    S('BufferSize', P + 'difi::BufferSize', 3, [
        ('buffer_size', 0, 31, 64, 'u'), ('level', 2, 15, 12, 'u'), ('overflow', 2, 3, 1, 'b'), ('nearly_full', 2, 2, 1, 'b'),
        ('nearly_empty', 2, 1, 1, 'b'), ('underflow', 2, 0, 1, 'b')]),
    S('Probability', P + 'Probability', 1, [('probability_function', 0, 15, 8, 'u'), ('probability_percent', 0, 7, 8, 'u')]),
    S('Belief', P + 'Belief', 1, [('belief_percent', 0, 7, 8, 'u')]),
]

# Named codes of VITA 49.2 (Tables 5.1.1-1, 5.1.1-2, 5.1.1-3, 8.3.1.x, 9.3.2-1, 9.6.1.1.x, 9.6.1.2-1, 9.10.3-1, 9.13.3-x), written down
# independently of the headers.
def _seq(names, start=0):
    return {n: start + i for i, n in enumerate(names.split()) if n != '-'}
ENUMS = {
    'PacketType': _seq('SIGNAL_DATA SIGNAL_DATA_STREAM_ID EXTENSION_DATA EXTENSION_DATA_STREAM_ID CONTEXT EXTENSION_CONTEXT COMMAND EXTENSION_COMMAND'),
    'TSI': _seq('NONE UTC GPS OTHER'),
    'TSF': _seq('NONE SAMPLE_COUNT REAL_TIME FREE_RUNNING'),
    'TSM': _seq('FINE COARSE'),
    'SPECTRUM_OR_TIME': _seq('TIME SPECTRUM'),
    'IdentifierFormat': _seq('WORD UUID'),
    'ActionMode': _seq('NO_ACTION DRY_RUN EXECUTE'),
    'TimestampControlMode': dict(_seq('IGNORE DEVICE LATE EARLY EARLY_LATE'), TIMING_ISSUES=7),
    'DataItemFormat': _seq('SIGNED_FIXED SIGNED_VRT_1 SIGNED_VRT_2 SIGNED_VRT_3 SIGNED_VRT_4 SIGNED_VRT_5 SIGNED_VRT_6 SIGNED_FIXED_NON_NORMALIZED - - - - - '
                           'IEEE754_HALF_PRECISION IEEE754_SINGLE_PRECISION IEEE754_DOUBLE_PRECISION UNSIGNED_FIXED UNSIGNED_VRT_1 UNSIGNED_VRT_2 '
                           'UNSIGNED_VRT_3 UNSIGNED_VRT_4 UNSIGNED_VRT_5 UNSIGNED_VRT_6 UNSIGNED_FIXED_NON_NORMALIZED'),
    'DataSampleType': _seq('REAL COMPLEX_CARTESIAN COMPLEX_POLAR'),
    'EntrySize': dict(EIGHT_BIT=1, SIXTEEN_BIT=2, THIRTY_TWO_BIT=4),
    'PackingMethod': _seq('PROCESSING_EFFICIENT LINK_EFFICIENT'),
    'SSI': _seq('SINGLE FIRST MIDDLE FINAL'),
    'AGCMode': _seq('MGC AGC'),
    'V49StandardCompliance': _seq('V49_0 V49_1 V49_A V49_2', 1),
    'SpectrumType': _seq('NONE LOG_POWER CARTESIAN POLAR MAGNITUDE'),
    'AveragingType': dict(NONE=0, LINEAR=1, PEAK_HOLD=2, MIN_HOLD=4, EXPONENTIAL=8, MEDIAN=16, SMOOTHING=32),
    'WindowTimeDelta': _seq('NONE PERCENT SAMPLES TIME'),
    'WindowType': _seq('RECTANGLE TRIANGLE HANNING_ALPHA_1 HANNING_ALPHA_2 HANNING_ALPHA_3 HANNING_ALPHA_4 HAMMING RIESZ RIEMANN DE_LA_VALLEPOUSSIN TUKEY_POINT_25 '
                       'TUKEY_POINT_50 TUKEY_POINT_75 BOHMAN POISSON_2 POISSON_3 POISSON_4 HANNING_POISSON_POINT_50 HANNING_POISSON_1 HANNING_POISSON_2 CAUCHY_3 CAUCHY_4 '
                       'CAUCHY_5 GAUSSIAN_2_POINT_50 GAUSSIAN_3 GAUSSIAN_3_POINT_50 DOLPH_CHEBYSHEV_2_POINT_50 DOLPH_CHEBYSHEV_3 DOLPH_CHEBYSHEV_3_POINT_50 DOLPH_CHEBYSHEV_4 '
                       'KAISER_BESSEL_2 KAISER_BESSEL_2_POINT_50 KAISER_BESSEL_3 KAISER_BESSEL_3_POINT_50 BARCILON_TEMES_3 BARCILON_TEMES_3_POINT_50 BARCILON_TEMES_4 '
                       'EXACT_BLACKMAN BLACKMAN MIN_THREE_SAMPLE_BLACKMAN_HARRIS MIN_FOUR_SAMPLE_BLACKMAN_HARRIS THREE_SAMPLE_BLACKMAN_HARRIS_61DB FOUR_SAMPLE_BLACKMAN_HARRIS_74DB FOUR_SAMPLE_KAISER_BESSEL'),
}
