"""What a check covered and found."""
import json
import os
import time

from impl import VERIF

LIMIT = 5      # violations written out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.start = time.time()
        self.states = self.transitions = 0
        self.replayed = self.validated = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.findings = []
        self.assumptions = [
            "texts of any bytes (the program: but 0); reference instants from 1401 to 9998 (in P22 the whole calendar)",
            "TLC, the JVM, g++ and boost::date_time are trusted"]

    def ran(self, name, run, behaviours):
        self.states += run.states
        self.transitions += run.transitions
        self.parts.append({"part": name, "states": run.states, "transitions": run.transitions,
                           "behaviours": behaviours, "seconds": round(time.time() - self.start, 1)})

    def sample(self, what):
        if len(self.samples) < 6:
            self.samples.append({k: v if isinstance(v, str) else json.dumps(v) for k, v in what.items()})

    def known(self, field):
        """what known_findings.txt says fails: the values of a field of this property's lines (JSON)"""
        start = "finding: property=%s %s" % (self.prop, field)
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            return [json.dumps(json.JSONDecoder().raw_decode(line[len(start):])[0]) for line in f if line.startswith(start)]

    def finding(self, what):
        self.findings.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def violation(self, kind, detail):
        """detail: what was asked of the code, what it did, and what the specification says"""
        self.violations.append(dict(kind=kind, **detail))

    def finish(self):
        for v in self.violations[:LIMIT]:
            folder = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, "%s-%d.json" % (self.prop, self.violations.index(v) + 1))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + json.dumps(v)[:1500])
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.replayed + self.validated,
                "behaviours_replayed_on_the_code": self.replayed,
                "recorded_events_checked_by_the_model": self.events,
                "parts": self.parts, "samples": self.samples},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "known_findings": self.findings,
            "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        print("%s %s: %d states, %d transitions, %d behaviours replayed, %d traces (%d events) validated, %d violations, %.0f s" % (
            self.prop, self.tier, self.states, self.transitions, self.replayed, self.validated, self.events,
            len(self.violations), time.time() - self.start))
        return 1 if self.violations else 0
