"""Writes MANIFEST.json from properties.jsonl and the property modules that exist (run by hand; the result is committed)."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing: reference CLIXML reader/writer as oracle for generated strings",
    "C02": "property-based testing: round trip and reference reader over generated value trees",
    "C03": "property-based testing: graph isomorphism against a reference reader over generated object graphs",
    "C04": "property-based testing: differential decoding of generated documents from a reference writer",
    "C05": "model-based property testing: key exchange histories against a model server that decrypts with its own AES and RSA code",
    "C06": "property-based testing: fragments of generated messages reassembled by a reference assembler",
    "C07": "property-based testing: generated splits, interleavings and faults of server fragments",
    "C08": "property-based testing: round trip of every message type against a reference codec",
    "C09": "property-based testing: generated requests parsed by a reference SOAP reader, with a responding model",
    "C10": "property-based testing with fault injection: generated fault documents and statuses",
    "C11": "property-based testing: size invariant over every request of generated operations",
    "C12": "property-based testing: sealing round trip with a peer model, corrupted and split responses",
    "C13": "fault-injection property testing: generated failure sequences against a model of the retry rules",
    "C14": "property-based testing: generated option combinations against a model of the session",
    "C15": "model-based property testing: generated token legs and headers against scripted security contexts",
    "C16": "property-based testing: generated certificates against an independent RFC 5929 computation",
    "C17": "stateful property testing: generated operations and deliveries against a model command",
    "C18": "stateful property testing: generated shell histories against a lifecycle model",
    "C19": "stateful property testing: generated pool histories with server events against a state model",
    "C20": "stateful property testing: generated limit histories against a model of what the server accepted",
    "C21": "stateful property testing: generated records, splits and polls against a model of what was delivered",
    "C22": "stateful property testing: generated pipeline histories against an invocation-state model",
    "C23": "property-based testing: generated builder programs against a reference decoder of the pipeline sent",
    "C24": "property-based testing: generated inputs against the messages a model server receives",
    "C25": "stateful property testing: generated host calls and user-interface histories against a console model",
    "C26": "property-based testing with fault injection: generated files against a model of the copy script",
    "C27": "property-based testing with fault injection: generated files, damage and failures against the local file tree",
    "C28": "property-based testing with fault injection: generated executions and CLIXML documents against what the server produced",
    "C29": "property-based testing with fault injection: generated answers and connection failures against a model of the shell, in process and over real sockets",
    "C30": "stateful property testing: generated inventories and disconnect/reconnect histories against a model server",
    "C31": "property-based testing: reference CLIXML reader and writer as oracle for generated objects of every class",
    "C32": "stateful property testing: generated queries, events and warnings against a model server",
}
DEF = "property-based testing: generated cases against an in-process model WinRM/PSRP server"
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(root, "harness", "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "bin/check %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % pid,
            "technique": TECH.get(pid, DEF),
            "level": "exploration",
            "level_note": "Generated-input search with an explicit oracle and a fixed seed: shows the property on the cases explored (counts in the "
                          "evidence file), does not prove absence. Trusts the reference implementations in harness/ and Hypothesis.",
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API and replace only the HTTP transport adapter and the clock from outside."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
