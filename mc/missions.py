"""Which products each special case is meant for: (where, condition) over the label's identifiers, the object name, the data file name and
the object's own keywords. Written down from the code's comments and conditions and then kept fixed: this is C26's reference model, not read from /repo."""

RULES = [
    ('offset', ["eq", "INSTRUMENT_ID", "CHEMIN"]),
    ('offset', ["and", ["eq", "DATA_SET_ID", "CLEM1-L-RSS-5-BSR-V1.0"], ["match", "name", "(HEADER|DATA)_TABLE"]]),
    ('offset', ["and", ["eq", "INSTRUMENT_ID", "THEMIS"], ["eq", "name", "QUBE"]]),
    ('offset', ["or", ["and", ["eq", "INSTRUMENT_NAME", "DESCENT IMAGER SPECTRAL RADIOMETER"], ["eq", "PRODUCT_TYPE", "RDR"]], ["and", ["eq", "INSTRUMENT_HOST_NAME", "HUYGENS PROBE"], ["search", "FILE_NAME", "STRIP|VISIBL|IMAGE|IR_|TIME|SUN|SOLAR"]]]),
    ('offset', ["eq", "DATA_SET_ID", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"]),
    ('offset', ["and", ["eq", "INSTRUMENT_ID", "CRAT"], ["eq", "PRODUCT_TYPE", "EDR"], ["eq", "name", "TABLE_1"]]),
    ('offset', ["and", ["eq", "DATA_SET_ID", "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"], ["has", "name", "TABLE"]]),
    ('offset', ["and", ["eq", "DATA_SET_ID", "PHX-M-MECA-4-NIRDR-V1.0"], ["in", "PRODUCT_TYPE", ["MECA_WCL_CP", "MECA_WCL_CV"]], ["has", "name", "TABLE"]]),
    ('offset', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["eq", "INSTRUMENT_ID", "REMS"], ["eq", "name", "REMS_REPORT_TABLE"], ["or", ["has", "PRODUCT_ID", "HSDEF__"], ["has", "PRODUCT_ID", "HSREG__"]]]),
    ('offset', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["in", "INSTRUMENT_ID", ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]], ["has", "DATA_SET_ID", "EDR"]]),
    ('table_reader', ["in", "DATA_SET_ID", ["CO-S-MIMI-4-CHEMS-CALIB-V1.0", "CO-S-MIMI-4-LEMMS-CALIB-V1.0", "CO-S-MIMI-4-INCA-CALIB-V1.0", "CO-E/J/S/SW-MIMI-2-LEMMS-UNCALIB-V1.0", "CO-SSA-RADAR-3-ABDR-SUMMARY-V1.0"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "CASSINI ORBITER"], ["eq", "PRODUCT_TYPE", "ANCILLARY"], ["has", "DATA_SET_ID", "CO-S-MIMI-4-"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_ID", "CHEMIN"], ["has", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["has", "DATA_SET_ID", "MSL-M-SAM-"], ["has", "PRODUCT_ID", "QMS"], ["has", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "MSL-M-ROVER-6-RDR-PLACES-V1.0"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_NAME", "ROSETTA PLASMA CONSORTIUM - MUTUAL IMPEDANCE PROBE"], ["has", "name", "SPECTRUM_TABLE"]]),
    ('table_reader', ["or", ["and", ["eq", "SPACECRAFT_NAME", "MAGELLAN"], ["eq", "name", "TABLE"], ["starts", "NOTE", "Geometry"]], ["and", ["eq", "DATA_SET_ID", "GO-J-NIMS-4-ADR-SL9IMPACT-V1.0"], ["eq", "name", "TABLE"], ["or", ["has", "PRODUCT_ID", "CAL_DATA.TAB"], ["has", "PRODUCT_ID", "G_DATA.TAB"], ["has", "PRODUCT_ID", "R_DATA.TAB"]]]]),
    ('table_reader', ["and", ["starts", "DATA_SET_ID", "MGN-V-RSS-5-OCC-PROF"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_ID", "DLRE"], ["in", "PRODUCT_TYPE", ["GCP", "PCP", "PRP"]], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "GO-J-PWS-5-DDR-PLASMA-DENSITY-FULL-V1.0"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "ODY-M-GRS-5-ELEMENTS-V1.0"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "ULY-J-GAS-5-SKY-MAPS-V1.0"], ["eq", "name", "TABLE"], ["eq", "STRUCTURE", "GASDATA.FMT"]]),
    ('table_reader', ["and", ["has", "DATA_SET_ID", "MRO-M-MCS-5-DDR"], ["nothas", "DATA_SET_ID", "V1.0"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_ID", "CRISM"], ["eq", "PRODUCT_TYPE", "ANCILLARY"], ["has", "PRODUCT_ID", "OBS"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "IHW-C-IRFCURV-3-EDR-HALLEY-V2.0"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["in", "DATA_SET_ID", ["IHW-C-PPFLX-3-RDR-HALLEY-V1.0", "IHW-C-PPOL-3-RDR-HALLEY-V1.0", "IHW-C-PPSTOKE-3-RDR-HALLEY-V1.0", "IHW-C-PPMAG-3-RDR-HALLEY-V1.0", "IHW-C-MSNRDR-3-RDR-HALLEY-ETA-AQUAR-V1.0", "IHW-C-MSNRDR-3-RDR-HALLEY-ORIONID-V1.0", "IHW-C-MSNVIS-3-RDR-HALLEY-ETA-AQUAR-V1.0", "IHW-C-MSNVIS-3-RDR-HALLEY-ORIONID-V1.0", "IHW-C-IRFTAB-3-RDR-HALLEY-V1.0", "IHW-C-IRPOL-3-RDR-HALLEY-V1.0", "IHW-C-IRPHOT-3-RDR-HALLEY-V1.0"]], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "VG1-J-LECP-4-SUMM-SECTOR-15MIN-V1.1"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"], ["eq", "INTERCHANGE", "ASCII"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "VG1-S-LECP-3-RDR-STEP-6MIN-V1.0"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "VL2-M-SEIS-5-RDR-V1.0"], ["in", "name", ["TABLE", "SPREADSHEET"]]]),
    ('table_reader', ["and", ["has", "DATA_SET_ID", "MEX-M-ASPERA3-2-EDR-IMA"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["match", "DATA_SET_ID", "MER[12]-M-RSS-1-EDR-V1.0"], ["eq", "PRODUCT_TYPE", "UHFD"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "PHX-M-MECA-4-NIRDR-V1.0"], ["eq", "INSTRUMENT_ID", "MECA_AFM"], ["has", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS EXPRESS"], ["eq", "INSTRUMENT_ID", "MRS"], ["and", ["has", "PRODUCT_ID", "ODF"], ["has", "PRODUCT_ID", "L1B"]], ["has", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "LRO-L-MRFLRO-1-PDR-V1.0"], ["has", "PRODUCT_ID", "HK_"], ["eq", "name", "SPREADSHEET"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["eq", "INSTRUMENT_ID", "REMS"], ["has", "name", "TABLE"], ["has", "PRODUCT_ID", "SP_____"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["eq", "INSTRUMENT_ID", "REMS"], ["eq", "name", "REMS_SCIENCE_TABLE"], ["has", "DATA_SET_ID", "RDR"]]),
    ('table_reader', ["and", ["and", ["has", "DATA_SET_ID", "ICE-C-"], ["has", "DATA_SET_ID", "-3-RDR-"]], ["has", "fn", "TRAJ_ICE"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "LUNAR RECONNAISSANCE ORBITER"], ["eq", "INSTRUMENT_NAME", "RADIO SCIENCE SUBSYSTEM"], ["eq", "name", "WEAREC_TABLE"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "LUNAR PROSPECTOR"], ["eq", "PRODUCT_ID", "OUTAGES"], ["eq", "name", "TABLE"]]),
    ('table_reader', ["and", ["eq", "DATA_SET_ID", "ODY-M-GRS-2-EDR-V1.0"], ["eq", "PRODUCT_TYPE", "E_KERNEL"], ["has", "fn", ".txt"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VRA"]], ["eq", "PRODUCT_TYPE", "UDR"], ["has", "PRODUCT_ID", ".RAW"]]),
    ('table_reader', ["and", ["eq", "INSTRUMENT_ID", "SPEDE"], ["has", "FILE_NAME", "PD_40_"], ["has", "FILE_NAME", ".TAB"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "CLEM1-L-RSS-5-BSR-V1.0"], ["eq", "name", "DATA_TABLE"]]),
    ('structure', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS GLOBAL SURVEYOR"], ["eq", "INSTRUMENT_ID", "RSS"], ["eq", "PRODUCT_TYPE", "ODF"], ["eq", "name", "ODF3B_TABLE"]]),
    ('structure', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS GLOBAL SURVEYOR"], ["eq", "INSTRUMENT_NAME", "RADIO SCIENCE SUBSYSTEM"], ["eq", "PRODUCT_TYPE", "ECS"]]),
    ('structure', ["or", ["and", ["eq", "INSTRUMENT_HOST_NAME", "CASSINI ORBITER"], ["eq", "INSTRUMENT_ID", "RPWS"], ["eq", "name", "TIME_SERIES"]], ["and", ["eq", "INSTRUMENT_HOST_NAME", "HUYGENS PROBE"], ["or", ["has", "fn", "HUY_DTWG_ENTRY_AERO"], ["and", ["has", "FILE_NAME", "HASI"], ["nothas", "FILE_NAME", "PWA"]]]]]),
    ('structure', ["and", ["match", "DATA_SET_ID", "GP-J-(NMS|ASI)-3-ENTRY-V1.0"], ["eq", "name", "TABLE"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "GO-E-EPD-2-SAMP-PAD-V1.0"], ["eq", "PRODUCT_ID", "E1PAD_7.TAB"], ["eq", "name", "TIME_SERIES"]]),
    ('structure', ["and", ["has", "DATA_SET_ID", "VEGA"], ["has", "DATA_SET_ID", "-C-DUCMA-3-RDR-HALLEY-V1.0"], ["eq", "name", "TABLE"]]),
    ('structure', ["and", ["or", ["eq", "DATA_SET_ID", "GIO-C-PIA-3-RDR-HALLEY-V1.0"], ["match", "DATA_SET_ID", "VEGA.-C-PUMA.*"]], ["eq", "name", "ARRAY"]]),
    ('structure', ["and", ["match", "DATA_SET_ID", "MRO-M-MCS-(4-RDR|2-EDR)-V1.0"], ["eq", "name", "TABLE"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"], ["eq", "name", "TABLE"], ["eq", "STRUCTURE", "VGR_PLS_HR_2017.FMT"]]),
    ('structure', ["and", ["has", "DATA_SET_ID", "IHW-C-SPEC-"], ["eq", "name", "SPECTRUM"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "PHX-M-MECA-2-NIEDR-V1.0"], ["eq", "name", "TBL_TABLE"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "PHX-M-MECA-4-NIRDR-V1.0"], ["eq", "INSTRUMENT_ID", "MECA_AFM"], ["has", "name", "HEADER_TABLE"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "PHX-M-TEGA-2-LEDEDR-V1.0"], ["eq", "name", "TIME_SERIES"], ["eq", "STRUCTURE", "TEGA_LED.FMT"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "PHX-M-TEGA-4-SCRDR-V1.0"], ["eq", "name", "TIME_SERIES"], ["eq", "STRUCTURE", "TEGA_SCRDR.FMT"]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "MEX-SUN-ASPERA3-4-SWM-V1.0"], ["eq", "name", "TABLE"]]),
    ('structure', ["and", ["has", "DATA_SET_ID", "-MIDAS-3-"], ["has", "PRODUCT_ID", "SPS"], ["eq", "name", "TIME_SERIES"]]),
    ('structure', ["and", ["has", "DATA_SET_ID", "-MIDAS-3-"], ["has", "PRODUCT_ID", "FSC"], ["eq", "name", "FREQUENCY_SERIES"]]),
    ('structure', ["and", ["has", "DATA_SET_NAME", "ROSETTA"], ["has", "DATA_SET_NAME", "CONSERT"], ["has", "name", "TABLE"], ["or", ["starts", "name", "I_"], ["starts", "name", "Q_"]]]),
    ('structure', ["and", ["eq", "SPACECRAFT_NAME", "GALILEO ORBITER"], ["in", "INSTRUMENT_NAME", ["SOLID_STATE_IMAGING", "SOLID STATE IMAGING SYSTEM"]]]),
    ('structure', ["and", ["eq", "DATA_SET_ID", "ODY-M-GRS-2-EDR-V1.0"], ["eq", "PRODUCT_TYPE", "E_KERNEL"], ["has", "fn", ".txt"]]),
    ('structure', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VRA"]], ["eq", "PRODUCT_TYPE", "UDR"], ["nothas", "fn", "ODF"], ["nothas", "fn", "TNF"], ["nothas", "fn", "RSR"]]),
    ('position', ["and", ["eq", "INSTRUMENT_ID", "MARSIS"], ["has", "DATA_SET_NAME", " TEC "]]),
    ('position', ["or", ["and", ["eq", "INSTRUMENT_HOST_NAME", "HUYGENS PROBE"], ["search", "FILE_NAME", "DARK|STRIP|VIS_EX|SUN|VISIBL|TIME|SOLAR|IMAGE"]], ["and", ["and", ["eq", "INSTRUMENT_NAME", "DESCENT IMAGER SPECTRAL RADIOMETER"], ["eq", "PRODUCT_TYPE", "RDR"]], ["in", "name", ["TABLE", "HEADER"]]]]),
    ('position', ["and", ["has", "DATA_SET_ID", "CO-V/E/J/S/SS-RPWS-"], ["eq", "PRODUCT_TYPE", "ANCILLARY"], ["eq", "name", "RPWS_TIME_ORDERED_TABLE"]]),
    ('position', ["and", ["eq", "DATA_SET_ID", "LRO-L-RSS-1-TRACKING-V1.0"], ["eq", "name", "WEAREC_TABLE"]]),
    ('position', ["and", ["eq", "DATA_SET_ID", "DIF-C-HRIV/MRI-5-HARTLEY2-SHAPE-V1.0"], ["eq", "PRODUCT_ID", "HARTLEY2-CARTESIAN-PLATE-MODEL"], ["has", "name", "TABLE"]]),
    ('position', ["and", ["has", "DATA_SET_ID", "MEX-M-MRS-5-OCC"], ["eq", "name", "ATM_TABLE"]]),
    ('position', ["and", ["eq", "DATA_SET_ID", "PHX-M-SSI-5-ATMOS-OPACITY-V1.0"], ["has", "name", "HEADER"]]),
    ('position', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS EXPRESS"], ["eq", "INSTRUMENT_ID", "MRS"], ["and", ["has", "PRODUCT_ID", "ICL"], ["has", "PRODUCT_ID", "L1B"]], ["eq", "name", "DOPPLER_TABLE"]]),
    ('position', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS EXPRESS"], ["eq", "INSTRUMENT_ID", "MRS"], ["and", ["has", "PRODUCT_ID", "ODF"], ["has", "PRODUCT_ID", "L02"]], ["eq", "name", "RANGING_TABLE"]]),
    ('position', ["and", ["in", "DATA_SET_ID", ["ESO1M-SR-APPH-4-OCC-V1.0", "ESO22M-SR-APPH-4-OCC-V1.0", "IRTF-SR-URAC-4-OCC-V1.0", "PAL200-SR-CIRC-4-OCC-V1.0", "MCD27M-SR-IIRAR-4-OCC-V1.0"]], ["has", "PRODUCT_ID", "GEOM"], ["eq", "name", "SERIES"]]),
    ('position', ["and", ["eq", "DATA_SET_ID", "MRO-M-CRISM-5-RDR-MULTISPECTRAL-V1.0"], ["has", "PRODUCT_ID", "MRRWV"], ["eq", "name", "TABLE"]]),
    ('position', ["and", ["eq", "DATA_SET_ID", "MSX-L-SPIRIT3-2/4-V1.0"], ["eq", "name", "ENVI_HEADER"]]),
    ('position', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VRA"]], ["eq", "PRODUCT_TYPE", "UDR"]]),
    ('sample_type', ["and", ["eq", "DATA_SET_ID", "JNO-J-JIRAM-3-RDR-V1.0"], ["eq", "PRODUCT_TYPE", "RDR"]]),
    ('sample_type', ["and", ["eq", "INSTRUMENT_ID", "LROC"], ["eq", "PRODUCT_TYPE", "EDR"]]),
    ('sample_type', ["and", ["eq", "DATA_SET_ID", "MGN-V-RDRS-5-GVDR-V1.0"], ["has", "PRODUCT_ID", "GVANF"]]),
    ('sample_type', ["eq", "DATA_SET_ID", "LRO-L-CRAT-2-EDR-RAWDATA-V1.0"]),
    ('sample_type', ["and", ["eq", "SPACECRAFT_NAME", "GALILEO_ORBITER"], ["has", "DATA_SET_ID", "-NIMS-2-EDR-V1.0"]]),
    ('sample_type', ["and", ["eq", "DATA_SET_ID", "ULY-J-EPAC-4-SUMM-PHA-24HR-V1.0"], ["ends", "PRODUCT_ID", "BIN"]]),
    ('sample_type', ["match", "DATA_SET_ID", "CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)"]),
    ('bit_column_case', ["in", "INSTRUMENT_NAME", ["ALPHA PARTICLE X-RAYSPECTROMETER", "JOVIAN AURORAL PLASMA DISTRIBUTIONS EXPERIMENT", "CHEMISTRY AND MINERALOGY INSTRUMENT", "MARS ADVANCED RADAR FOR SUBSURFACE ANDIONOSPHERE SOUNDING"]]),
    ('bit_start_case', ["eq", "INSTRUMENT_NAME", "JOVIAN INFRARED AURORAL MAPPER"]),
    ('bit_format', ["match", "DATA_SET_ID", "CO-(CAL-ISS|[S/EVJ-]+ISSNA/ISSWA-2)"]),
    ('bit_format', ["and", ["eq", "SPACECRAFT_NAME", "GALILEO ORBITER"], ["in", "INSTRUMENT_NAME", ["SOLID_STATE_IMAGING", "SOLID STATE IMAGING SYSTEM"]]]),
    ('block', ["and", ["starts", "DATA_SET_ID", "JNO-E/J/SS"], ["has", "DATA_SET_ID", "BSTFULL"], ["in", "name", ["FREQ_OFFSET_TABLE", "DATA_TABLE"]]]),
    ('block', ["and", ["eq", "INSTRUMENT_ID", "LAMP"], ["eq", "PRODUCT_TYPE", "RDR"], ["has", "name", "IMAGE"], ["has", "name", "HISTOGRAM"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"], ["has", "PRODUCT_ID", "GLOBAL_S4_32PPD"], ["eq", "name", "IMAGE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "PVO-V-ORPA-5-ELE/ION/PHOTO/UADS-V1.0"], ["has", "PRODUCT_ID", "ORPA_LOW_RES"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "PVO-V-OIMS-4-IONDENSITY-12S-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "GO-E-EPD-4-SUMM-"], ["has", "PRODUCT_ID", "E1_"], ["eq", "name", "TIME_SERIES"]]),
    ('block', ["and", ["eq", "INSTRUMENT_NAME", "PLASMA WAVE RECEIVER"], ["has", "DATA_SET_ID", "SUMM"], ["or", ["eq", "name", "TIME_SERIES"], ["eq", "name", "TABLE"]]]),
    ('block', ["and", ["has", "DATA_SET_ID", "ULY-J-EPAC-4-SUMM"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "VG2-N-MAG-4-RDR-HGCOORDS"], ["eq", "STANDARD_DATA_PRODUCT_ID", "ASCII DATA"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "VG2-SS-PLS-3-RDR-FINE-RES-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "VG2-U-PLS-5-SUMM-IONBR-48SEC-V1.0"], ["eq", "PRODUCT_ID", "SUMRY.DAT"], ["eq", "name", "TIME_SERIES"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "M9-M-IRIS-3-RDR-V1.0"], ["or", ["eq", "name", "SPECTRAL_SERIES"], ["has", "name", "SPECTRUM"]]]),
    ('block', ["and", ["match", "DATA_SET_ID", "IHW-C-MSNRDR-3-RDR-HALLEY-(ETA-AQUAR|ORIONID)-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "VG2-"], ["has", "DATA_SET_ID", "-PRA-3-RDR-LOWBAND-6SEC-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "PHX-M-MECA-2-NIEDR-V1.0"], ["match", "PRODUCT_TYPE", "MECA-EM1[012]"], ["eq", "name", "WCHEM_TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "MEX-M-PFS-2-EDR-"], ["or", ["has", "PRODUCT_ID", "RAW"], ["has", "PRODUCT_ID", "HK"]], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS EXPRESS"], ["eq", "INSTRUMENT_ID", "MRS"], ["and", ["has", "PRODUCT_ID", "ODF"], ["has", "PRODUCT_ID", "L1B"], ["has", "PRODUCT_ID", "RMP"]], ["has", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "WFF-E-ATM-1/5-V1.0"], ["eq", "name", "IMAGE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "CO-CAL-ISS-2-V1.0"], ["eq", "name", "IMAGE"], ["or", ["has", "fn", ".DA"], ["eq", "FILE_RECORDS", 1025]]]),
    ('block', ["and", ["in", "DATA_SET_ID", ["CO-S-ISSNA/ISSWA-2-EDR-V1.0", "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0", "CO-CAL-ISSNA/ISSWA-2-EDR-V1.0"]], ["in", "name", ["LINE_PREFIX_TABLE", "TELEMETRY_TABLE"]]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "MGS-M-MOLA-3-PEDR-L1A-V1.0"], ["has", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "IUE-C-SWP-3-EDR-IUECDB-V1.0"], ["eq", "name", "QUALITY_IMAGE"]]),
    ('block', ["and", ["eq", "SPACECRAFT_NAME", "GALILEO ORBITER"], ["eq", "INSTRUMENT_NAME", "SOLID STATE IMAGING SYSTEM"], ["eq", "name", "LINE_PREFIX_TABLE"]]),
    ('block', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["in", "INSTRUMENT_ID", ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]], ["has", "DATA_SET_ID", "EDR"], ["eq", "name", "IMAGE"]]),
    ('block', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VRA"]], ["has", "PRODUCT_ID", "1B_RMP_"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "SLN-L-GRS-5-NUCLIDE-MAP-V2.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "SLN-L-SP"], ["has", "DATA_SET_ID", "LEVEL2B"], ["eq", "name", "ANCILLARY_AND_SUPPLEMENT_DATA"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "SLN-L-LMAG-5-MA-GRID"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "SLN-L-LMAG-5-1D-SIGMA-ECS-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["eq", "DATA_SET_ID", "SLN-L-LMAG-3-MAG-TS-V1.0"], ["eq", "name", "TABLE"]]),
    ('block', ["and", ["has", "DATA_SET_ID", "SLN-L-RISE-5-TRAJ-"], ["eq", "name", "TABLE"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_ID", "APXS"], ["has", "name", "ERROR_CONTROL_TABLE"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_NAME", "TRIAXIAL FLUXGATE MAGNETOMETER"], ["eq", "name", "TABLE"], ["has", "DATA_SET_ID", "-EDR-"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_NAME", "CHEMISTRY CAMERA REMOTE MICRO-IMAGER"], ["eq", "name", "IMAGE_REPLY_TABLE"]]),
    ('trivial_case', ["and", ["starts", "DATA_SET_ID", "ODY-M-THM-5"], ["in", "name", ["HEADER", "HISTORY"]]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "CO-CAL-ISS-2-V1.0"], ["in", "name", ["TELEMETRY_TABLE", "LINE_PREFIX_TABLE"]], ["eq", "FILE_RECORDS", 1025]]),
    ('trivial_case', ["and", ["eq", "SPACECRAFT_NAME", "MAGELLAN"], ["or", ["ends", "fn", ".img"], ["ends", "fn", ".ibg"]], ["eq", "name", "TABLE"]]),
    ('trivial_case', ["and", ["has", "DATA_SET_ID", "GO-A-SSI-3-"], ["has", "DATA_SET_ID", "-CALIMAGES-V1.0"], ["has", "PRODUCT_ID", "QUB"], ["eq", "name", "HEADER"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_ID", "CHEMIN"], ["eq", "name", "HEADER"]]),
    ('trivial_case', ["and", ["has", "DATA_SET_ID", "MSL-M-SAM-"], ["has", "name", "FILE"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_ID", "NIMS"], ["eq", "SPACECRAFT_NAME", "GALILEO_ORBITER"], ["eq", "name", "SAMPLE_SPECTRUM_QUBE"]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "BUGLAB-L-BUG-4-APOLLO-SAMPLES-V1.0"], ["eq", "name", "HEADER"]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "MSL-M-APXS-4/5-RDR-V1.0"], ["eq", "name", "HEADER"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VRA"]], ["has", "PRODUCT_ID", "1A_TNF"]]),
    ('trivial_case', ["and", ["eq", "INSTRUMENT_HOST_NAME", "VENUS EXPRESS"], ["in", "INSTRUMENT_ID", ["VIRTIS"]], ["eq", "name", "HISTORY"]]),
    ('trivial_case', ["and", ["has", "DATA_SET_ID", "MRO-M-MCS-5-DDR"], ["has", "DATA_SET_ID", "V1.0"]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "SLN-L-PACE-3-PBF1-V3.0"], ["eq", "name", "TIME_SERIES"]]),
    ('trivial_case', ["and", ["has", "DATA_SET_ID", "SLN-L-SP"], ["has", "name", "L2D_RESULT_ARRAY"]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "SLN-L-TC-4-DEM-ORTHO-V1.0"], ["eq", "name", "QA_FILENAME"]]),
    ('trivial_case', ["and", ["eq", "DATA_SET_ID", "SLN-L-GRS-3-ENG-SPECTRUM-V1.0"], ["eq", "name", "TABLE"]]),
    ('trivial_case', ["and", ["has", "fn", "CE3_BMYK_VNIS-CC_SCI_"], ["eq", "name", "CAL_TARGET_DATA"]]),
    ('trivial_case', ["and", ["eq", "SPACECRAFT_NAME", "CE1"], ["has", "name", "IMAGE_PREFIX"]]),
    ('special_image_constants', ["eq", "INSTRUMENT_ID", "CRISM"]),
    ('fn', ["and", ["eq", "DATA_SET_ID", "CLEM1-L-RSS-5-BSR-V1.0"], ["in", "name", ["HEADER_TABLE", "DATA_TABLE"]]]),
    ('fn', ["and", ["eq", "SPACECRAFT_NAME", "MAGELLAN"], ["or", ["ends", "fn", ".img"], ["ends", "fn", "ibg"]], ["eq", "name", "TABLE"]]),
    ('fn', ["and", ["starts", "DATA_SET_ID", "CO-D-CDA"], ["eq", "name", "TABLE"]]),
    ('fn', ["eq", "INSTRUMENT_ID", "THEMIS"]),
    ('fn', ["and", ["in", "DATA_SET_ID", ["NH-P-PEPSSI-4-PLASMA-V1.0", "NH-X-SWAP-5-DERIVED-SOLARWIND-V1.0", "NH-P/PSA-LORRI/ALICE/REX-5-ATMOS-V1.0"]], ["eq", "name", "SPREADSHEET"]]),
    ('fn', ["and", ["eq", "SPACECRAFT_NAME", "GALILEO ORBITER"], ["eq", "INSTRUMENT_NAME", "SOLID_STATE_IMAGING"], ["eq", "name", "IMAGE_LINE_PREFIX_TABLE"]]),
    ('fn', ["and", ["eq", "DATA_SET_ID", "VG2-SR/UR/NR-PPS-2/4-OCC-V1.0"], ["eq", "PRODUCT_TYPE", "JITTER"], ["eq", "name", "SERIES"]]),
    ('fn', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["in", "INSTRUMENT_ID", ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]], ["has", "DATA_SET_ID", "EDR"], ["eq", "name", "IMAGE"]]),
    ('qube_band_storage', ["eq", "INSTRUMENT_HOST_NAME", "CASSINI_ORBITER"]),
    ('fits_start_byte', ["and", ["eq", "INSTRUMENT_HOST_NAME", "DAWN"], ["has", "DATA_SET_ID", "FC2"], ["eq", "name", "HISTORY"]]),
    ('fits_start_byte', ["and", ["starts", "DATA_SET_ID", "HST-S-WFPC2-3-RPX"], ["has", "name", "IMAGE"]]),
    ('fits_start_byte', ["and", ["eq", "INSTRUMENT_ID", "HRIV"], ["eq", "PRODUCT_TYPE", "RADIANCE_DECONVOLVED"], ["starts", "name", "EXT_MASK"]]),
    ('fits_start_byte', ["starts", "DATA_SET_ID", "MSGR-H-MDIS-6-CAL"]),
    ('fits_start_byte', ["eq", "DATA_SET_ID", "MSSSO-J-CASPIR-3-RDR-SL9-STDS-V1.0"]),
    ('fits_start_byte', ["has", "DATA_SET_ID", "MEX-M-VMC-3-RDR"]),
    ('fits_start_byte', ["and", ["eq", "DATA_SET_ID", "LRO-L-LAMP-2-EDR-V1.0"], ["has", "name", "TABLE"]]),
    ('fits_start_byte', ["eq", "DATA_SET_ID", "LRO-L-LAMP-3-RDR-V1.0"]),
    ('fits_start_byte', ["and", ["eq", "PRODUCT_TYPE", "RDR"], ["has", "DATA_SET_ID", "JNO-J-UVS-3-RDR-"]]),
    ('fits_start_byte', ["and", ["eq", "PRODUCT_TYPE", "EDR"], ["has", "DATA_SET_ID", "JNO-J-UVS-2-EDR-"]]),
    ('objects', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["in", "INSTRUMENT_ID", ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]], ["has", "DATA_SET_ID", "EDR"]]),
    ('objects', ["and", ["eq", "SPACECRAFT_NAME", "Chang'E-3 Rover"], ["has", "PRODUCT_ID", "CE3_BMYK_VNIS-CC_SCI_N"], ["has", "PRODUCT_ID", ".2A"]]),
    ('objects', ["and", ["eq", "SPACECRAFT_NAME", "Chang'E-3 Rover"], ["has", "PRODUCT_ID", "CE3_BMYK_VNIS-SC_SCI_N_"], ["has", "PRODUCT_ID", ".2A"]]),
    ('objects', ["and", ["eq", "SPACECRAFT_NAME", "Chang'E-3 Rover"], ["has", "PRODUCT_ID", "CE3_BMYK_VNIS-SD_SCI_N_"], ["has", "PRODUCT_ID", ".2A"]]),
    ('compressed_file_reader', ["and", ["eq", "INSTRUMENT_HOST_NAME", "MARS SCIENCE LABORATORY"], ["in", "INSTRUMENT_ID", ["MAHLI", "MAST_RIGHT", "MAST_LEFT", "MARDI"]], ["has", "DATA_SET_ID", "EDR"]]),
    ('compressed_file_reader', ["and", ["eq", "SPACECRAFT_NAME", "MARS_GLOBAL_SURVEYOR"], ["in", "INSTRUMENT_ID", ["MOC-NA", "MOC-WA"]], ["has", "FILE_NAME", "IMQ"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE6-L_GRAS_LMS-M"], ["has", "fn", "SCI"], ["has", "fn", ".2B"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE6-L_GRAS_LMS-S"], ["has", "fn", "SCI"], ["has", "fn", ".2B"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE6-L_GRAS_LMS-N"], ["has", "fn", "SCI"], ["has", "fn", ".2B"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE5-L_GRAS_LMS-N"], ["has", "fn", ".2B"], ["has", "fn", "SCI"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE5-L_GRAS_LMS-M"], ["has", "fn", ".2B"], ["has", "fn", "SCI"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE4_GRAS_ASAN-SCI_SCI"], ["has", "fn", ".2B"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE4_GRAS_LND-DPSL_SCI"], ["has", "fn", ".2A"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE4_GRAS_LND-ThN_SCI"], ["has", "fn", ".2A"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE4_GRAS_LND-TID_SCI"], ["has", "fn", ".2A"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "CE4_GRAS_VNIS-SD_SCI"], ["has", "fn", ".2B"], ["eq", "name", "TABLE_0"]]),
    ('pds4_cases', ["and", ["has", "fn", "ch2_cla_l1_"], ["or", ["eq", "name", "header_Data"], ["eq", "name", "data"]]]),
    ('label', ["and", ["or", ["has", "fn", "CE1"], ["has", "fn", "CE2"], ["has", "fn", "CE3"]], ["or", ["has", "fn", ".1A"], ["has", "fn", ".1B"], ["has", "fn", ".1C"], ["has", "fn", ".2A"], ["has", "fn", ".2B"], ["has", "fn", ".2C"], ["has", "fn", ".3A"], ["has", "fn", ".3B"], ["has", "fn", ".3C"], ["has", "fn", ".01"], ["has", "fn", ".02"], ["has", "fn", ".03"]]]),
    ('label', ["and", ["has", "fn", ".TAB"], ["has", "fn", "_DOY"], ["or", ["has", "fn", "MAG_"], ["has", "fn", "BIO_"]], ["has", "fn", "_V1"]]),
    ('pointer_dispatch', ["and", ["has", "DATA_SET_ID", "SLN-L-SP"], ["has", "name", "SPECTRUM"]]),
    ('pointer_dispatch', ["and", ["has", "DATA_SET_ID", "SLN-L-SP"], ["has", "name", "ANCILLARY_AND_SUPPLEMENT_DATA"]]),
]
