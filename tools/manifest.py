#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SM = ("explicit-state model checking of the real transition function: every reachable oracle state within the bounds is built with the real code, "
      "every block of the alphabet is processed in it, and the result is compared with a reference model")
CHECKS = {
 "C01": (SM, "model_checking", "bounded: all single steps from a grid of injected states times products of block parts, and all histories to a depth; conservation checked on every transition"),
 "C02": (SM, "model_checking", "bounded: all splits over grids of amounts, fees, eligible sets, balances, forks and networks"),
 "C03": (SM, "model_checking", "bounded: all status combinations times all block parts, and all histories to a depth"),
 "C04": (SM, "model_checking", "bounded: all single steps from a grid of states and all histories to a depth"),
 "C05": (SM, "model_checking", "bounded: all single steps from a grid of states and all histories to a depth"),
 "C06": (SM, "model_checking", "bounded: the product of validator states, credentials, senders, collaterals and statuses"),
 "C07": (SM, "model_checking", "bounded: the product of senders, validators, statuses and other events of the block"),
 "C08": (SM, "model_checking", "bounded: statuses, balances, consolidations and slots around the cleanup period"),
 "C09": ("exhaustive enumeration of oracle states; every tree built by the real code, every proof verified with the contract's algorithm", "model_checking", "bounded: all assignments of addresses (letter case included) and balances to 4 validators; all tree sizes to 80"),
 "C10": ("exhaustive exploration of all histories of blocks and freezes on the real code, every frozen record compared after every later step", "model_checking", "bounded: depth 4 over 12 blocks, each followed by a freeze or not"),
 "C11": ("exhaustive exploration of iteration orders: the real code, with its loops over maps under a controller, is run under every order within the bound and every run compared", "model_checking", "bounded: every permutation of every single loop and of all loops at once, in 12032 combinations of state, block and chain"),
 "C12": ("exhaustive exploration of all histories with a save and reload in every reachable state, then every continuation compared with the model", "model_checking", "bounded: depth 4 over 12 blocks from four start slots, one step of every continuation; restarts from every copy of longer histories"),
 "C13": ("exhaustive fault enumeration on saved states: every value, byte and truncation; every configuration difference", "fault_enumeration", "bounded: six saved states; every single fault of each kind"),
 "C14": ("crash-point enumeration: the system calls of real saves are recorded, every crash of the process and of the machine between and inside them is turned into a folder, and the real oracle is started on each; plus a real kill and a real error at every call", "fault_enumeration", "bounded: five histories of saves, loads and restarts; every crash point under a file system model that is validated against the real folder"),
 "C15": ("exploration of all histories with every refusable block tried in every reachable state", "model_checking", "bounded: depth 3 over 8 blocks from three start slots, 54 refused blocks per state"),
 "C16": (SM, "model_checking", "bounded: all combinations of configuration events around the scheduled slots of every network; histories across the change"),
 "C17": (SM, "model_checking", "bounded: the product of block formats, fee recipients, proposers, last and first transactions, ether events"),
 "C18": ("exhaustive enumeration of blocks compared with the definition of the tip", "model_checking", "bounded: all blocks of up to two transactions from 51, in every block format, four base fees; every single wrong receipt list"),
 "C19": (SM, "model_checking", "bounded: products of ether events, amounts, recipients, proposers; histories"),
 "C20": ("fault enumeration on the real fetch code: a consensus and an execution node on the loopback interface, every fault of every kind at every request (and every pair), every result compared with the fault-free one", "fault_enumeration", "bounded: all single and repeated faults at every request of every block shape, pairs for a few shapes; retry delays removed"),
 "C21": ("exhaustive exploration of the real daemon process under a controller: every single action of the environment (votes, finality, sync status, failing transactions) at every request whose answer can depend on it, every single fault of the nodes at every request, pairs in the thorough tier; the daemon is stopped at every statement of its main package and every sleep is the controller's", "model_checking", "bounded: three chains of 5 to 13 slots with 2 to 3 checkpoints, 20 start situations, quorum 1 and 2 of 3"),
 "C22": ("crash-point enumeration on the real daemon process under a controller: from every reachable persistent state (state folder and chain) an uninterrupted run, a kill at every change, a signal at every statement, request and sleep with the main loop going on or not; closed under restarts until no new persistent state appears", "fault_enumeration", "bounded: three chains, quorum 1 and 2, one signal per history (two in the thorough tier) and any number of kills; folders ahead of the chain and checkpoint sync"),
 "C25": ("exhaustive enumeration of event lists, their distributions over blocks and start records on the real API over HTTP, compared with processing the events in the reference model", "model_checking", "bounded: up to 3 events of 11, 18 pairs of records, 9 beacon statuses; every single fault of the node"),
 "C26": ("exhaustive exploration of histories with checkpoints; in every reachable state every endpoint of the real API is read over HTTP and compared with the reference model, every proof verified with the contract's algorithm", "model_checking", "bounded: depth 3 over 10 blocks with or without checkpoint after each, every position of the chain; sets of up to 3 of 18 records around the 30 day window"),
 "C27": ("exhaustive enumeration of requests, oracle states and faults against the real API over HTTP", "fault_enumeration", "bounded: all endpoints, states, distances, parameters within one edit of a proper one, single and double faults of the nodes, pairs of relay answers"),
 "C28": ("exhaustive enumeration of books: every single and combined difference of one wei or a large amount in every component, histories of claims around the reconciled block read from a fake node with every fault, and the real daemon run under a controller with books that do not balance", "model_checking", "bounded: 216 states of three validators times differences; 7 histories of claims by each of three addresses; some 400 daemon lives with an imbalance at each point"),
 "C29": ("exhaustive enumeration of deployments (contents of the deployment block, chains, contract values) and of node faults, the real startup code run against fake nodes for each and compared with what the contract says", "fault_enumeration", "bounded: deployment blocks of up to 4 transactions of 14 kinds, 131 offsets of the embedded call, 8 x 8 chains; all single and repeated faults for 6 deployments"),
 "C30": ("exhaustive enumeration of start situations (command line, keystore, membership, balance, state to start from) and of node faults, the real daemon process run under a controller in each", "fault_enumeration", "bounded: all combinations of up to two (thorough: three) unusual ones of twelve things, some 4000 command lines; every single and repeated fault of every request at start; every kind of request failing always or all but the last of 1, 2, 3, 7 attempts, or 60 times"),
 "C23": ("stateless exploration of thread schedules of the real code under a controlled scheduler (every lock is driven by the explorer and every statement is a scheduling point): deadlock detection, and every history compared with all sequential orders of its calls", "model_checking", "bounded: 810 programs of 2 or 3 threads (main loop, API requests, save on a signal) with all schedules that switch at locks; all pairs of calls with a switch at any statement (two in the thorough tier)"),
 "C24": ("stateless exploration of thread schedules of the real oracle and API (over HTTP) under a controlled scheduler: every answer and every saved file compared with the sequential orders, every served or saved state loaded by another oracle", "model_checking", "bounded: 126 programs of 2 or 3 threads, 14 endpoints, all schedules that switch at locks and one switch at any statement (two in the thorough tier)"),
}
NOT = {

}
m = {"version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [{"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
             "technique": "model checking: " + t, "level": l, "level_note": n} for p, (t, l, n) in sorted(CHECKS.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items()) if p not in CHECKS],
 "notes": "No hooks are needed in /repo: the harness is compiled inside its module through a build overlay. The commits in /repo are repairs (fix:), listed in known_findings.jsonl.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
