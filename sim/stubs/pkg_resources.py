class DistributionNotFound(Exception):
    pass


class _Dist:
    version = "0.1"
    project_name = "zielen"


def get_distribution(name):
    return _Dist()


def resource_filename(*a):
    raise NotImplementedError
