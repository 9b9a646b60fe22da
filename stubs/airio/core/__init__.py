"""Stand-in for airio.core: type names t5x uses in isinstance checks."""
class DatasetProviderBase: pass
class Task(DatasetProviderBase): pass
class Mixture(DatasetProviderBase): pass
class AirIODatasetIterator: pass
