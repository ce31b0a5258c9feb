----------------------------- MODULE NetworkMC ------------------------------
EXTENDS Network, TLC
PoolSmall == {"CO_g", "*_s", "CO_s", "O2_g", "2O_s", "O_t"}
TSSmall == {"", "O-O_2s", "C-O_s"}
PoolQuick == {"CO_g", "*_s", "2*_s", "*_t", "CO_s", "O2_g", "O_s", "2O_s", "O_t", "Cl_s"}
TSQuick == {"", "CO-O_2s", "O-O_2s", "C-O_s"}
\* Emits the family as scenarios for the replay on the real code.
GenAll == ndJsonSerialize(IOEnv.OUT, SetToSeq({[rxns |-> <<t>>] : t \in Texts}))
ASSUME IF "OUT" \in DOMAIN IOEnv THEN GenAll ELSE TRUE
=============================================================================
