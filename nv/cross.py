from . import props, spec
def units(fams, x='aarch64', chunk=60):
    return props.op_units(fams.split(), [(x, x, spec.FLAGS[x], None)], chunk)
