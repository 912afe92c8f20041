TLC = 'TLA+ specification checked with TLC; '
WALK = 'all transitions TLC enumerates replayed in the real library; '
TV = 'recorded library histories validated against the specification by TLC'
TRUST = ' Trusted: TLC, OpenSSL/Python primitives used as oracles (AES-GCM, scrypt, HMAC), the drivers in lib/.'
BOTH = 'Exhaustive within the bounded models, sampled (seeded) beyond.' + TRUST
SAMPLED = 'Sampled (seeded) histories and inputs, each judged by the specification.' + TRUST
CLI = 'recorded command line dialogues validated against the specification by TLC'
DIALOG = 'the dialogues of a bounded model enumerated by TLC had with the real program; '
VAULT = TLC + WALK + DIALOG + TV + '; ' + CLI
CHECKS = {
    'C01': (VAULT, BOTH),
    'C02': (VAULT, BOTH),
    'C03': (VAULT, BOTH),
    'C04': (VAULT, BOTH),
    'C05': (TLC + TV + '; ' + CLI, SAMPLED),
    'C06': (VAULT, BOTH),
    'C07': (TLC + WALK + DIALOG + CLI + '; drawn salts and secrets validated likewise', BOTH),
    'C08': (TLC + 'model of the derivation checked exhaustively within bounds; ' + TV, BOTH),
    'C09': (TLC + 'recorded encodings and decodings validated against the specification by TLC', SAMPLED),
    'C10': (TLC + DIALOG + 'recorded recovery code checks and dialogues validated against the specification by TLC', BOTH),
    'C11': (VAULT, BOTH),
    'C12': (TLC + DIALOG + CLI, BOTH),
    'C13': (TLC + 'model of the file operations checked exhaustively; recorded file operations of real saves, and dialogues interrupted at every one of them, validated against the specification by TLC',
            'Every file operation of the exercised commands is interrupted (kill, partial write, error); commands and contents sampled.' + TRUST),
    'C14': (VAULT, BOTH),
    'C15': (TLC + 'model of drawing nonces, salts and secrets checked exhaustively within bounds, its behaviours executed by the real library; recorded files, recovery codes and shell histories validated against the specification by TLC; everything written searched for readable texts', BOTH),
    'C16': (TLC + 'histories and dialogues on damaged files validated against the specification by TLC', SAMPLED),
    'C17': (TLC + 'histories and dialogues in which another implementation of the file format takes turns validated against the specification by TLC', SAMPLED),
    'C18': (TLC + DIALOG + CLI, BOTH),
    'C19': (TLC + DIALOG + CLI, BOTH),
    'C20': (TLC + 'models of shared files and of file operations checked exhaustively; transitions of the model of several instances replayed in the real library; recorded histories, dialogues and schedules of several processes validated against the specification by TLC', BOTH),
    'C22': (TLC + 'recorded dialogues on a pseudo terminal, its attributes included, validated against the specification by TLC', SAMPLED),
    'C23': (TLC + 'model of shells sharing a history file checked exhaustively within bounds; recorded sessions, the history file included, validated against the specification by TLC', BOTH),
    'C24': (TLC + DIALOG + 'recorded dialogues, standard output and standard error apart, validated against the specification by TLC', BOTH),
    'C25': (TLC + 'model of the file operations of saves checked exhaustively; what lies around the storage file recorded in dialogues, also interrupted at every file operation, and validated against the specification by TLC', BOTH),
}
NOT_APPLICABLE = {
    'C21': 'Whether secrets remain in process memory is not observable behaviour of states and transitions: a specification has nothing to say about the allocator or copies made by libraries, and conformance would need a memory scanner rather than a model.',
}
NOTES = 'See DESIGN.md.'
