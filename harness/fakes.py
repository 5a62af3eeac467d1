"""Entries with exactly known, temperature-dependent energies (interface of GibbsComputedEntry)."""
from __future__ import annotations
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from pymatgen.entries.computed_entries import ComputedEntry
from monty.json import MontyDecoder
from rxn_network.core import Composition

class LinEntry(ComputedEntry):
    """energy(T) = natoms-independent table: E[T] per cell; temperatures are integers"""
    def __init__(self, composition, table, temperature, entry_id, data=None, energy_adjustments=None):
        composition = Composition(composition)
        self.table = {int(k): v for k, v in table.items()}
        super().__init__(composition, self.table[int(temperature)], entry_id=entry_id, data=data, energy_adjustments=energy_adjustments)
        self._composition = composition
        self.temperature = temperature
    def get_new_temperature(self, new_temperature):
        return LinEntry(self.composition, self.table, new_temperature, self.entry_id, self.data)
    def to_grand_entry(self, chempots): return GrandPotPDEntry(self, chempots)
    def copy(self): return LinEntry(self.composition, self.table, self.temperature, self.entry_id, self.data, self.energy_adjustments)
    @property
    def unique_id(self): return f"{self.entry_id}_{self.temperature}"
    @property
    def is_experimental(self): return not self.data.get("theoretical", True)
    def as_dict(self):
        return {"@module": type(self).__module__, "@class": type(self).__name__, "composition": self.composition.as_dict(),
                "table": {str(k): v for k, v in self.table.items()}, "temperature": self.temperature, "entry_id": self.entry_id, "data": self.data,
                "energy_adjustments": [a.as_dict() for a in self.energy_adjustments]}
    @classmethod
    def from_dict(cls, d):
        return cls(Composition(d["composition"]), d["table"], d["temperature"], d["entry_id"], d["data"], [MontyDecoder().process_decoded(a) for a in d.get("energy_adjustments", [])])
    def __eq__(self, o):
        return type(o) is type(self) and self.unique_id == o.unique_id and self.composition == o.composition and self.energy == o.energy
    def __hash__(self): return hash((self.unique_id, self.composition, self.energy))
    def __repr__(self): return f"LinEntry {self.unique_id} {self.composition.formula} {self.energy}"

from rxn_network.entries.gibbs import GibbsComputedEntry
class ExactGibbs(GibbsComputedEntry):
    """GibbsComputedEntry whose energy per atom is exactly formation energy + slope * (T - 300) / 100; the
    slope is carried by volume_per_atom (1 + slope), everything else is inherited."""
    def gibbs_adjustment(self, temperature):
        return self._composition.num_atoms * (self.volume_per_atom - 1) * (temperature - 300) / 100
