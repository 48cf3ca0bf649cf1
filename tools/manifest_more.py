SEQ = "Seeded random cases against an executable model under AddressSanitizer and UBSan; evidence for the cases run, not a proof."
C.update({
 "C02": ("model-based random testing of the real code under ASan+UBSan with per-operation oracle (std::map)", "exploration", SEQ),
  "C03": ("model-based random testing of the real code under ASan+UBSan with scan oracle (std::map ranges)", "exploration", SEQ),
  "C10": ("model-based random testing of the real query engine and row code under ASan+UBSan, for each row representation", "exploration", SEQ),
 "C18": ("differential fuzzing of the real encoder and decoders against an independent reference codec under ASan+UBSan, every chunking", "exploration", SEQ),
 "C19": ("differential fuzzing of the real JSON parser, printer and value operations against an independent reference model under ASan+UBSan", "exploration", SEQ),
 "C20": ("model-based random testing of the real string classes under ASan+UBSan against std::string models", "exploration", SEQ),
 "C06": ("controlled-scheduler execution of the real reclamation code with a grace-period, exactly-once and bounded-drain monitor and shadow memory, plus real-thread stress under AddressSanitizer", "exploration", "Adversarial schedules of random programs at memory-access granularity; evidence for the schedules run, not a proof."),
 "C11": ("controlled-scheduler execution of the real query engine with a per-row version-history checker", "exploration", "Adversarial schedules of random programs at memory-access granularity; evidence for the schedules run, not a proof."),
})

LAB = "Real server code over journalled file operations; crash images at operation boundaries and at any byte of unsynced data, recovered by the real code. Evidence for the runs and images explored, not a proof."
C.update({
 "C12": ("crash-image fault injection on the real logging and recovery code with a consistent-prefix checker over the recorded update history (AddressSanitizer)", "exploration", LAB),
 "C13": ("crash-image fault injection over repeated run/crash/recover cycles with a durability monitor and consistent-prefix checker (AddressSanitizer)", "exploration", LAB),
 "C14": ("log-damage fault injection on the real recovery code with consistent-prefix and loss-bound checkers (AddressSanitizer)", "exploration", LAB),
 "C15": ("crash-image fault injection with concurrent checkpoints by the real checkpoint code, consistent-prefix checker (AddressSanitizer)", "exploration", LAB),
 "C16": ("re-partitioning of recorded log records over files and replay by the real code, compared with the expected state (AddressSanitizer)", "exploration", LAB),
})
C.update({
 "C17": ("the real server process (AddressSanitizer, injected delays) under model-checking TCP/UDP clients, hostile clients and kill/restart: per-answer model, register linearizability and contents oracles", "exploration",
         "Real processes over loopback; the byte streams are seeded, the kernel's timing is not. Evidence for the traffic generated, not a proof."),
})
