namespace sim { const char* config_name() { return SIM_CONFIG; } }
