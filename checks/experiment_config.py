"""Experimental design read by the experiment driver in the C28 harness."""


def generate_experimental_design_config(seed=1):
    from checks import c28

    return c28.CURRENT[0](seed)
