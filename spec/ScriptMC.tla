------------------------------ MODULE ScriptMC ------------------------------
EXTENDS ScriptGen
MCTimes == {<<86400 * 8825, 0>>, <<86400 * 9190 + 80000, 999000000>>, <<86400 * 59 - 1, 7000000>>, <<-86400, 0>>}
MCDurs == {<<900, 0>>, <<-60, 500000000>>}
=============================================================================
