//! only there to build the library with the wanted features
