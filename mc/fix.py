"""Shared classes: enums, dataclasses and attrs classes used by the drivers."""
import enum
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple, Union

import attr

from .core import OmegaConf  # noqa: F401  (boots /repo)
from omegaconf import MISSING, II, SI  # noqa: E402


class Color(enum.Enum):
    RED = 1
    GREEN = 2


class Size(enum.Enum):
    S = "s"
    L = "l"


@dataclass
class Pt:
    x: int = 1
    y: float = 0.5


@dataclass
class Pt3(Pt):
    z: Optional[str] = None


@dataclass
class Other:
    x: str = "o"


@dataclass(frozen=True)
class Frozen:
    a: int = 1
    sub: Pt = field(default_factory=Pt)
    l: List[int] = field(default_factory=lambda: [1])


@attr.s(auto_attribs=True)
class APt:
    x: int = 1
    y: float = 0.5


@dataclass
class Prim:
    i: int = 1
    f: float = 0.5
    b: bool = True
    s: str = "s"
    by: bytes = b"b"
    p: Path = Path("p")
    e: Color = Color.RED
    a: Any = 1


@dataclass
class Opt:
    i: Optional[int] = None
    s: Optional[str] = "s"
    e: Optional[Color] = None
    u: Optional[Union[int, bool]] = None


@dataclass
class Cont:
    li: List[int] = field(default_factory=lambda: [1, 2])
    ds: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    lo: List[Optional[int]] = field(default_factory=lambda: [None, 1])
    de: Dict[Color, str] = field(default_factory=lambda: {Color.RED: "r"})
    lp: List[Pt] = field(default_factory=lambda: [Pt()])
    dp: Dict[str, Pt] = field(default_factory=lambda: {"p": Pt()})
    ll: List[List[int]] = field(default_factory=lambda: [[1], [2]])


@dataclass
class Nest:
    pt: Pt = field(default_factory=Pt)
    opt: Optional[Pt] = None
    u: Union[int, str] = 1
    li: List[int] = field(default_factory=lambda: [1, 2])
    ds: Dict[str, int] = field(default_factory=lambda: {"k": 1})
    a: Any = None
    m: int = MISSING
    r: int = II("pt.x")


@dataclass
class NoFields:
    pass


@dataclass
class AllMissing:
    x: Any = MISSING
    a: Any = MISSING


NS = dict(globals())
