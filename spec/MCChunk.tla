------------------------------ MODULE MCChunk ------------------------------
EXTENDS Chunk
=============================================================================
