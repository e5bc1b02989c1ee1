from pbt.props.c19 import NOTE, QUICK, RULE, TECHNIQUE, THOROUGH, plan  # noqa
