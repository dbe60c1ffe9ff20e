"""Data design configuration read by the synthetic data design generator in the C08 harness."""


def generate_data_design_config(random_generator):
    from checks import c08

    return c08.CURRENT[0](random_generator)
