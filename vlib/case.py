"""What one execution yields, whatever engine ran it."""
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, List


@dataclass
class Case:
    violations: List[dict] = field(default_factory=list)  # {property, key, detail, ...}
    counts: Counter = field(default_factory=Counter)  # what the monitors saw
    signature: str = ""  # equal signatures = the same execution as far as the monitors can tell
    sample: Any = None
    log: List[str] = field(default_factory=list)  # written to the replay file

    def bad(self, prop, key, detail):
        if len(self.violations) < 100:
            self.violations.append({"property": prop, "key": key, "detail": str(detail)[:600]})
