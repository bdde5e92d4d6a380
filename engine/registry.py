import rules_encode as enc
import rules_decode as dec
import rules_model as mod
import rules_pbf as pbf
import rules_write as wri
import rules_pw as pw
import rules_read as rd
import rules_bbox as bb
import rules_apidb as adb
import rules_apird as ard
REGISTRY = {
 "C01": {"run": enc.run_nodes, "floor": 11},
 "C02": {"run": enc.run_ways, "floor": 11},
 "C03": {"run": enc.run_relations, "floor": 13},
 "C04": {"run": dec.run_nodes, "floor": 18},
 "C05": {"run": dec.run_ways_relations, "floor": 18},
 "C07": {"run": enc.run_table, "floor": 5},
 "C10": {"run": pbf.run_framing, "floor": 10},
 "C11": {"run": pbf.run_compression, "floor": 10},
 "C12": {"run": wri.run_writer, "floor": 10},
 "C16": {"run": mod.run_order, "floor": 8},
 "C24": {"run": bb.run_boxes, "floor": 25},
 "C20": {"run": rd.run_sequential, "floor": 10},
 "C19": {"run": rd.run_parallel, "floor": 10},
 "C21": {"run": rd.run_features, "floor": 6},
 "C22": {"run": rd.run_header, "floor": 40},
 "C23": {"run": rd.run_counts, "floor": 10},
 "C13": {"run": pw.run_order, "floor": 12},
 "C14": {"run": pw.run_conservation, "floor": 15},
 "C25": {"run": adb.run_rows, "floor": 170},
 "C26": {"run": adb.run_text, "floor": 14},
 "C27": {"run": adb.run_current, "floor": 80},
 "C28": {"run": adb.run_close, "floor": 118},
 "C29": {"run": ard.run_tables, "floor": 60},
 "C30": {"run": ard.run_join, "floor": 15},
 "C31": {"run": ard.run_fields, "floor": 30},
 "C32": {"run": ard.run_sequence, "floor": 10},
 "C33": {"run": ard.run_literals, "floor": 30},
 "C15": {"run": pw.run_guard, "floor": 6},
}
import rules_faults as flt
REGISTRY["C17"] = {"run": flt.run_writes, "floor": 60}
REGISTRY["C18"] = {"run": flt.run_reads, "floor": 60}
import rules_wire as wire
REGISTRY["C09"] = {"run": wire.run_schema, "floor": 200}
import rules_values as val
REGISTRY["C36"] = {"run": val.run_values, "floor": 200}

def also(pid, n, *kinds):
    """the property also relies on the values elements report: n further obligations"""
    run = REGISTRY[pid]["run"]
    def both(c):
        run(c); c.guard("values", val.values, c, *kinds)
    REGISTRY[pid] = dict(REGISTRY[pid], run=both, floor=REGISTRY[pid]["floor"] + n)
also("C01", 40, "node"); also("C02", 35, "way"); also("C03", 40, "relation"); also("C04", 40, "node"); also("C05", 70, "way", "relation")
also("C25", 105, "node", "way", "relation"); also("C31", 105, "node", "way", "relation"); also("C22", 20, "info"); also("C24", 12, "box")
import rules_accum as acc
REGISTRY["C37"] = {"run": acc.run_accumulator, "floor": 14}
import rules_locks as lk
REGISTRY["C34"] = {"run": lk.run_locks, "floor": 60}
import rules_files as fil
REGISTRY["C39"] = {"run": fil.run_files, "floor": 150}
import rules_isolation as iso
REGISTRY["C38"] = {"run": iso.run_isolation, "floor": 90}
import rules_text as txt
REGISTRY["C35"] = {"run": txt.run_text, "floor": 20}
import rules_repeat as rep
REGISTRY["C40"] = {"run": rep.run_repeat, "floor": 100}
import rules_ends as end
REGISTRY["C41"] = {"run": end.run_ends, "floor": 50}
import rules_settings as sett
REGISTRY["C42"] = {"run": sett.run_settings, "floor": 20}
