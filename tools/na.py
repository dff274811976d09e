NA = {
 'N01': 'statistical property of drawn samples and of numerical quadrature; no static argument bounds the values',
 'N02': 'numerical equality of FFT results over all arrays; depends on numpy/FFT arithmetic, not on code structure (which transform is applied when is decided under G05)',
 'N03': 'numerical conservation up to rounding and edge effects of an FFT convolution; not a source-level fact',
 'N04': 'depends on geometry of random draws at run time; a static argument cannot bound which volumes a drawn line of sight crosses',
 'N05': 'the oracle is the published literature, which is not in the repository',
}
TECH = {}
