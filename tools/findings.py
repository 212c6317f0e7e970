"""Writes known-findings.jsonl: every genuine defect found, all repaired so far."""
import json,subprocess
F=[
("F1","E03","8074a0d","Shutdown panicked (close of closed channel) with a subscriber of several topics"),
("F2","E02","535d4bc","the bus lock was held while a delivery or a shutdown waited, so a subscriber that publishes, subscribes or never reads wedged the bus"),
("F25","E01","b5a6197","Dispatch appended the default topic into the caller's slice: concurrent publishers sharing a topic list sent events to the wrong topics"),
("F14","M02","cf9c42d","a windowed counter without a window counted nothing"),
("F15","M02","3ac7f0a","a returned history changed under the caller when later windows closed"),
("F4","L03","e22e61a","pop returned the element after the head, so adding to a full queue of capacity one panicked"),
("F3","T01","9d81d69","after reporting that it had finished a ticker kept receiving from the closed channel in a busy loop"),
("F17","F01","38fcb3d","with a failing source of randomness a refused transition left the machine without a nonce, so the next call panicked, and an accepted one reported an error although the state had changed"),
("F16","D01","a6a4fae","after a reset the detector did not collect a fresh baseline"),
("F26","D01","a858f46","a refused transition threw the collected series away"),
("F5","L01","f2fd94c","a line longer than the scanner's buffer stopped that source for good, without an error event"),
("F6","C08","3886bdd","a command had no error reporter: the first failure to report crashed monny"),
("F5b","C01","c858a2a","a line longer than 64 KiB stopped the pass-through of that stream and blocked the command"),
("F28","C08","9330e57","a standard input that cannot be examined crashed monny"),
("F7","C07","2a9e765","a full history dropped two lines for each new one, and a history of 0 or 1 lines crashed monny"),
("F22","C05","0f98e46","once a line had matched, every following line sent another alert"),
("F8","C03","e3345c4","the time warning was never sent"),
("F8b","C04","e3345c4","the memory warning was never sent"),
("F12","C03","560e97c","a command killed by timeout was reported with a negative duration"),
("F23","C06","3d1fe00","the default host carried a scheme and could not be dialled"),
("F29","C05","cefb749","a JSON rule on an array of numbers matched nothing"),
("F24","C06","dc973dc","a report of output that is not UTF-8 was never delivered"),
("F13","C09","608f784","monny did not finish while its upstream stayed open after the command had ended"),
("F27","C11","acaf89d","a signal right after the command's start ended monny without passing it on or reporting it"),
("F11","C06","5247268","a report was given up after fifteen minutes instead of its hour, and a hung server kept monny past the hour"),
("F10","C05","da8d65f","an acknowledged alert removed matches it had not carried"),
("F9","C06","a9118e5","monny exited while a report was just about to be sent"),
("F20","C06","cb44c9b","main exited without waiting for reports when the command could not be killed"),
("F30","C12","40dc620","every list in the configuration file added all rules and files of all lists again"),
("F31","C12","ee581a9","a switch written as false was turned on"),
("F33","C12","9298c5d","the default shell overwrote the configured one, and without a default monny refused to run"),
("F34","C08","c6ff9ce","when the reader of monny's output left, monny died of SIGPIPE, the command with it, and no report was sent"),
("F35","C01","39b7826","the error reporting library wrote its own failures among the command's standard error"),
("F36","L01","bc17866","every event created wrote a debugging line to standard error, also where a log source was switched off"),
("F37","C12","c505852","a switch set to false on the command line did not take back the same switch set earlier, there or in the configuration file"),
("F38","L03","3081e17","a log history of no lines crashed at the first line"),
    ("F39","C08","63bb40b","monny without a command to run crashed"),
    ("F40","C06","36832fa","a report that was given up after its hour was sent, with the command's output, to the error reporting service"),
    ("F41","C12","aa41bfe","a malformed configuration file on which the YAML parser panics crashed monny"),
]
with open("known-findings.jsonl","w") as f:
    for i,p,c,w in F:
        full=subprocess.check_output(["git","-C","/repo","rev-parse","--short",c],text=True).strip()
        f.write(json.dumps({"id":i,"property":p,"status":"fixed","commit":full,"what":w,"entry":f"fixed: property={p} {full} {w}"})+"\n")
