# The interpreter has it
