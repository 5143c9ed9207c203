extern const bool FLAVOUR_FINE; const bool FLAVOUR_FINE = true;
