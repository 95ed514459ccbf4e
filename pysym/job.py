import dataclasses
import typing


@dataclasses.dataclass
class Job:
    name: str
    func: typing.Callable
    params: dict = dataclasses.field(default_factory=dict)
    require: tuple = ()          # labels which must be reached
    bounds: str = ''
    validate: int = 2            # paths replayed on plain code
    max_paths: int = 200000


class Params(dict):
    def __getattr__(self, n):
        return self[n]
