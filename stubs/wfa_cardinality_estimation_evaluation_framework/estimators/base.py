class EstimateNoiserBase(object):
    pass
