from catalog import PROPS  # noqa: F401
