// Serialisation happens inside comm_channel.hpp's stand-in.
