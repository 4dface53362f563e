"""Documented signatures (parameter order and default values) of the public operations.

vf.core.call uses them to vary the form of a call without changing its meaning: a keyword whose value is the documented
default may be left out, keywords may be given by position, and integer arrays may be given in another integer type that
holds the same values.  A changed default or order, or arithmetic that wraps in a narrow type, is thus noticed."""
import numpy as np

from . import gen

SIGNATURES = {
    'buffer': [('signal',), ('length',), ('overlap', 'value', 0), ('delay', 'value', 0), ('clip', 'value', False)],
    'channel_estimation_prbs': [('prbs_type',), ('signal',), ('constellation',), ('prbs_full_scale', 'value', False), ('channel_postcursor', 'value', 500), ('channel_precursor', 'value', 19), ('normalize', 'value', False), ('bit_order_inv', 'value', False), ('pn_inv_precoding', 'value', False), ('gray_coding', 'value', False), ('pn_inv_postcoding', 'value', False)],
    'dig_delay_lagrange_coeffs': [('n',), ('alpha',), ('forward', 'value', True)],
    'dig_delay_sinc_coeffs': [('n',), ('alpha',), ('forward', 'value', True)],
    'digital_oversample': [('signal_vec',), ('osr',), ('order',), ('method',), ('beta', 'value', 0)],
    'equalization_estimation': [('reference_signal',), ('signal',), ('ffe_postcursor', 'value', 23), ('ffe_precursor', 'value', 4), ('dfe_taps', 'value', 0), ('normalize', 'value', False), ('regularization', 'value', 'None'), ('reg_lambda', 'value', 0)],
    'equalization_estimation_prbs': [('prbs_type',), ('signal',), ('constellation',), ('ffe_postcursor', 'value', 23), ('ffe_precursor', 'value', 4), ('dfe_taps', 'value', 0), ('normalize', 'value', False), ('regularization', 'value', 'None'), ('reg_lambda', 'value', 0), ('prbs_full_scale', 'value', False), ('bit_order_inv', 'value', False), ('pn_inv_precoding', 'value', False), ('gray_coded', 'value', True), ('pn_inv_postmapping', 'value', False)],
    'eye_diagram': [('signal',), ('osr_in',), ('osr_diag',), ('fs_value', 'value', 1), ('quantization', 'value', 256), ('logscale', 'value', False)],
    'get_levels': [('constellation',), ('full_scale', 'value', False)],
    'tx.bin2symbol': [('bin_mat',), ('num_of_symbols',), ('bit_order_inv', 'value', False), ('inv_msb', 'value', False), ('inv_lsb', 'value', False), ('pn_inv', 'value', False)],
    'tx.coding_conv': [('pattern',), ('G',), ('feedback', 'value', None), ('use_feedback', 'value', None), ('zi', 'value', None)],
    'tx.coding_differential': [('pattern',), ('constellation', 'enum', 'PAM4')],
    'tx.coding_gray': [('pattern',), ('constellation', 'enum', 'PAM4')],
    'tx.mapping': [('signal',), ('constellation',), ('full_scale', 'value', False), ('levels', 'value', None), ('pn_inv', 'value', False)],
    'rx.ctle': [('signal',), ('zeros',), ('poles',), ('dc_gain',), ('fs',), ('osr',), ('zi', 'value', None)],
    'rx.ddlms_grad': [('input_vec',), ('output_vec',), ('levels',), ('ffe_tap_idx', 'array', []), ('dfe_tap_idx', 'array', []), ('reference_vec', 'value', None)],
    'rx.decoding_bipolar': [('pattern',), ('error_detection', 'value', False)],
    'rx.decoding_conv_ml': [('pattern',), ('G',), ('tb_len',), ('feedback', 'value', None), ('use_feedback', 'value', None), ('error_prob', 'value', False)],
    'rx.decoding_conv_viterbi': [('pattern',), ('G',), ('tb_len',), ('feedback', 'value', None), ('use_feedback', 'value', None), ('error_prob', 'value', False)],
    'rx.decoding_differential': [('pattern',), ('constellation', 'enum', 'PAM4')],
    'rx.decoding_gray': [('pattern',), ('constellation', 'enum', 'PAM4')],
    'rx.decoding_linear': [('pattern',), ('G',), ('error_prob', 'value', False)],
    'rx.demapping': [('signal',), ('constellation',), ('full_scale', 'value', False), ('pn_inv', 'value', False)],
    'rx.ffe_dfe': [('input_signal',), ('ffe_taps', 'array', [1]), ('dfe_taps', 'value', None), ('levels', 'value', None), ('osr', 'value', 1), ('phase', 'value', 0), ('zi_ffe', 'value', None), ('zi_dfe', 'value', None)],
    'rx.mueller_muller_step': [('signal_chunk',), ('reference_signal',), ('pre_weight', 'value', 1), ('post_weight', 'value', 1), ('tol', 'value', 0.001)],
    'rx.prbs_checker': [('prbs_type',), ('data_in',), ('init_lock',), ('loss_th', 'value', 100), ('prbs_seq', 'value', None)],
    'rx.prbs_checker_econ': [('prbs_type',), ('data_in',), ('loss_th', 'value', 100)],
    'rx.quantize': [('signal',), ('total_bits',), ('frac_bits', 'value', 0), ('fix_point_type', 'value', 'u')],
    'rx.slicer': [('slicer_in_mat',), ('levels', 'value', None)],
    'rx.soft_ddlms_grad': [('input_vec',), ('output_vec',), ('levels',), ('sigma', 'value', 1), ('ffe_tap_idx', 'array', []), ('dfe_tap_idx', 'array', []), ('reference_vec', 'value', None)],
    'rx.symbol2bin': [('symbol_mat',), ('num_of_symbols',), ('bit_order_inv', 'value', False), ('inv_msb', 'value', False), ('inv_lsb', 'value', False), ('pn_inv', 'value', False)],
    'channel.awgn_channel': [('signal',), ('b',), ('a',), ('snr', 'value', None), ('zi', 'value', None)],
    'channel.pulse_shape': [('signal',), ('osr', 'value', 1), ('span', 'value', 1), ('pulse', 'value', 'rect'), ('beta', 'value', 0.5), ('rj_sigma', 'value', 0.0), ('zi', 'value', None)],
    'channel.rcos_pulse': [('osr',), ('span',), ('beta',), ('t', 'value', None)],
    'channel.rect_pulse': [('osr',), ('span',), ('t', 'value', None)],
    'channel.rrc_pulse': [('osr',), ('span',), ('beta',), ('t', 'value', None)],
    'channel.sinc_pulse': [('osr',), ('span',), ('t', 'value', None)],
    'psa.psa': [('signal',), ('fs',), ('rbw', 'value', None), ('mode', 'value', 'dB'), ('obw', 'value', None), ('r', 'value', 50), ('osr', 'value', 4), ('window', 'value', 'blackmanharris'), ('overlap', 'value', 0.75), ('fullscale', 'value', 1), ('sb_mode', 'value', 'DSB'), ('plot', 'value', False)],
    'digital_delay.dig_delay_rcos_coeffs': [('n',), ('alpha',), ('forward', 'value', True), ('beta', 'value', 0.5)],
    'misc.least_squares.least_squares': [('a_mat',), ('b',), ('regularization', 'value', 'None'), ('reg_lambda', 'value', 0)],
}

# arguments whose integer arrays may come in any integer type (bits, symbols, samples, generators)
RETYPE = {
    'tx.prbs_gen': (1,), 'tx.bin2symbol': (0,), 'rx.symbol2bin': (0,), 'tx.mapping': (0,), 'rx.demapping': (0,), 'rx.slicer': (0, 1), 'rx.quantize': (0,),
    'tx.coding_gray': (0,), 'tx.coding_differential': (0,), 'tx.coding_manchester': (0,), 'tx.coding_differential_manchester': (0,), 'tx.coding_bipolar': (0,),
    'tx.coding_mlt3': (0,), 'tx.coding_linear': (0, 1), 'tx.coding_conv': (0, 1), 'rx.decoding_gray': (0,), 'rx.decoding_differential': (0,),
    'rx.decoding_manchester': (0,), 'rx.decoding_differential_manchester': (0,), 'rx.decoding_bipolar': (0,), 'rx.decoding_mlt3': (0,), 'rx.decoding_linear': (0, 1),
    'rx.decoding_conv_ml': (0, 1), 'rx.decoding_conv_viterbi': (0, 1), 'rx.lock_pattern_to_signal': (0, 1), 'rx.lock_pattern_to_signal_binary': (0, 1),
    'rx.prbs_checker': (1, 'prbs_seq'), 'rx.prbs_checker_econ': (1,), 'hamming': (0, 1), 'power': (0,), 'rms': (0,), 'buffer': (0,), 'upsample': (0,), 'zoh': (0,),
    'bin2uint': (0,), 'uint2bin': (0,), 'channel.awgn': (0,), 'channel.awgn_channel': (0,), 'channel.pulse_shape': (0,), 'rx.ffe_dfe': (0,), 'rx.ctle': (0,),
    'rx.ddlms_grad': (0, 1, 2, 'reference_vec'), 'rx.mueller_muller_step': (0, 1), 'digital_oversample': (0,), 'eye_diagram': (0,), 'psa.psa': (0,),
    'channel_estimation_prbs': (1,), 'equalization_estimation_prbs': (1,), 'equalization_estimation': (0, 1),
}
SIGNED = ('rx.demapping',)      # a signal to be inverted needs a signed type
INTS = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64')

_MAP = None
_RETYPE = None
_SIGNED = None
_LAYOUT = None


def _LAYOUT_OK():
    """Public functions of the library (not objects with a memory, not helpers of the checks)."""
    global _LAYOUT
    if _LAYOUT is None:
        _LAYOUT = set(_resolve(RETYPE)) | set(_resolve(SIGNATURES))
    return _LAYOUT


def _retyped(x, rnd, signed=False):
    if isinstance(x, dict):
        return {k: _retyped(v, rnd, signed) for k, v in x.items()}
    if not isinstance(x, np.ndarray) or x.dtype.kind not in 'iu' or not x.size:
        return x
    lo, hi = int(x.min()), int(x.max())
    fit = [t for t in INTS if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max and not (signed and t[0] == 'u')]
    t = rnd.choice(fit) if fit else x.dtype
    if x.flags.c_contiguous:
        return x.astype(t)
    y = np.empty_like(np.broadcast_to(np.zeros(1, t), x.shape), shape=tuple(2 * n for n in x.shape))[tuple(slice(None, None, 2) for _ in x.shape)]
    y[...] = x                  # still not contiguous
    return y


def _laid(x, rnd):
    """The same values in another memory layout (arrays, and arrays inside dictionaries)."""
    if isinstance(x, dict):
        return {k: _laid(v, rnd) for k, v in x.items()}
    if not isinstance(x, np.ndarray) or x.ndim == 0 or x.dtype == object:
        return x
    kind = rnd.randrange(6)
    if kind == 0:
        return np.asfortranarray(x)
    if kind == 1:
        return gen.lay(x, 'strided')
    if kind == 2:
        return gen.lay(x, 'reversed')
    if kind == 3 and x.ndim > 1:
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(x, 0, -1)), -1, 0)
    return x


def retype(fn, args, kwargs, rnd):
    global _RETYPE, _SIGNED
    if _RETYPE is None:
        _RETYPE = _resolve(RETYPE)
        _SIGNED = _resolve({k: () for k in SIGNED})
    try:
        which = _RETYPE.get(fn)
    except TypeError:
        return args, kwargs
    if which is None or rnd.randrange(2):
        return args, kwargs
    s = fn in _SIGNED
    return (tuple(_retyped(a, rnd, s) if k in which else a for k, a in enumerate(args)),
            {k: _retyped(v, rnd, s) if k in which else v for k, v in kwargs.items()})


def _resolve(table):
    import importlib
    import CommDspy as cdsp
    out = {}
    for path, sig in table.items():
        f = cdsp
        try:
            for k in path.split('.'):
                f = getattr(f, k)
        except AttributeError:
            f = None
        if not callable(f):
            try:
                mod, name = ('CommDspy.' + path).rsplit('.', 1)
                f = getattr(importlib.import_module(mod), name)
            except (ImportError, AttributeError):
                continue
        if callable(f):
            out[f] = sig
    return out


def _default(spec):
    if spec[1] == 'array':
        return np.array(spec[2])
    if spec[1] == 'enum':
        import CommDspy as cdsp
        return cdsp.ConstellationEnum[spec[2]]
    return spec[2]


def _is_default(v, spec):
    if len(spec) == 1:
        return False
    d = _default(spec)
    if isinstance(d, np.ndarray):
        return isinstance(v, np.ndarray) and v.shape == d.shape and bool(np.all(v == d))
    return type(v) is type(d) and v == d


def vary(fn, args, kwargs, rnd):
    """(args, kwargs) of an equivalent call; rnd is a random.Random (or None: unchanged)."""
    global _MAP
    if rnd is None:
        return args, kwargs
    args, kwargs = retype(fn, args, kwargs, rnd)
    if not rnd.randrange(4) and fn in _LAYOUT_OK():
        args, kwargs = tuple(_laid(a, rnd) for a in args), {k: _laid(v, rnd) for k, v in kwargs.items()}
    if _MAP is None:
        _MAP = _resolve(SIGNATURES)
    try:
        sig = _MAP.get(fn)
    except TypeError:
        return args, kwargs
    if sig is None:
        return args, kwargs
    names = [s[0] for s in sig]
    spec = dict(zip(names, sig))
    if len(args) > len(sig) or any(k not in spec for k in kwargs):
        return args, kwargs
    mode = rnd.randrange(4)
    if mode == 1:
        return args, {k: v for k, v in kwargs.items() if not _is_default(v, spec[k])}
    if mode == 2:
        args = list(args)
        while args and len(args) > 1 and _is_default(args[-1], sig[len(args) - 1]) and not kwargs:
            args.pop()
        return tuple(args), kwargs
    if mode == 3 and kwargs:
        last = max(names.index(k) for k in kwargs)
        out = list(args)
        for k in names[len(args):last + 1]:
            if k in kwargs:
                out.append(kwargs[k])
            elif len(spec[k]) > 1:
                out.append(_default(spec[k]))
            else:
                return tuple(args), kwargs
        return tuple(out), {}
    return args, kwargs
