//! Small well-formed files of every format, in one consistent world.
use crate::gram::Format;

pub const SCT: &str = r#"; sector file
#define colour_Stopbar 255
#define COLOR_Region 8881798
[INFO]
AeroNav München
EDMM_CTR
EDDM
N048.21.13.618
E011.47.09.909
60
39
-3
1
[VOR]
MIQ  113.700 N048.34.12.700 E011.35.51.200 ; Moosburg
OTT  112.300 N048.10.49.368 E011.48.59.529
[NDB]
MNW  338.000 N048.21.32.000 E011.40.00.000
[FIXES]
ARMUT N049.43.25.000 E012.19.24.000
GIVMI N048.42.03.938 E011.21.53.291
ERNAS N048.50.40.808 E011.13.09.670
DM060 N048.22.00.000 E011.50.00.000
[AIRPORT]
EDDM 118.700 N048.21.13.618 E011.47.09.909 D
EDMO 119.555 N048.04.53.000 E011.16.59.000 D
[RUNWAY]
08L 26R 083 263 N048.21.46.000 E011.44.03.000 N048.22.02.000 E011.47.16.000 EDDM Munich
04  22  040 220 N048.04.20.000 E011.16.20.000 N048.05.20.000 E011.17.40.000 EDMO Oberpf
[HIGH AIRWAY]
Y101 GIVMI GIVMI ERNAS ERNAS
Z999 N048.00.00.000 E011.00.00.000 N048.30.00.000 E011.30.00.000
[LOW AIRWAY]
L603 ARMUT ARMUT GIVMI GIVMI
L603 GIVMI GIVMI ERNAS ERNAS
[SID]
EDDM SID 26R GIVMI1N                     DM060 DM060 GIVMI GIVMI
                                         GIVMI GIVMI ERNAS ERNAS
[STAR]
EDDM STAR 08L                            N048.21.46.000 E011.44.03.000 N048.22.02.000 E011.47.16.000
[ARTCC HIGH]
EDMM ALB                                 N049.02.24.501 E012.31.35.850 N048.10.49.419 E011.48.59.530
[ARTCC]
Release line EDMM ARBAX Window           N049.26.33.000 E012.52.42.000 N049.35.18.000 E013.00.24.000 colour_Stopbar
[ARTCC LOW]
RMZ EDMS                                 N048.57.40.000 E012.23.34.000 N048.56.22.000 E012.39.38.000
                                         N048.56.22.000 E012.39.38.000 N048.50.25.000 E012.38.30.000
[GEO]
EDDM Groundlayout                        N048.21.53.000 E011.48.32.000 N048.21.52.000 E011.48.33.000 colour_Stopbar
                                         N048.21.52.000 E011.48.33.000 N048.21.50.000 E011.48.35.000
[REGIONS]
REGIONNAME EDDM Taxiways
COLOR_Region N048.21.53.000 E011.48.32.000
 N048.21.52.000 E011.48.33.000
 N048.21.50.000 E011.48.35.000
[LABELS]
"S-West" N048.21.53.000 E011.48.32.000 colour_Stopbar
"Alarm 1" N048.21.50.000 E011.48.35.000 COLOR_Region
"#;

pub const ESE: &str = r"; ese
[POSITIONS]
EDDM_ATIS:Muenchen ATIS:123.130:MX::EDDM:ATIS:::0000:0000
EDMM_ALB_CTR:Muenchen Radar:129.100:ALB:ALB:EDMM:CTR:::2354:2367:N049.02.24.501:E012.31.35.850
EDXX_FIS_CTR:Langen Information:128.950:GIXX:FIS:EDXX:CTR:::2001:2577:N049.26.51.334:E010.13.06.336:N052.28.08.891:E010.52.12.796
EGBB_ATIS:Birmingham ATIS:136.030:BBI:B:EGBB:ATIS:-:-::
[SIDSSTARS]
STAR:EDDN:28:UPALA1V:UPALA DN463 DN462
STAR:EDMO:22:MAHxRNP:MAH MO220 EDIMO
SID:EDDM:26R:GIVMI1N:DM060 GIVMI
[FREETEXT]
N048.21.53.000:E011.48.32.000:Gates:101
[AIRSPACE]
SECTORLINE:L1
DISPLAY:A:A:B
COORD:N048.00.00.000:E011.00.00.000
COORD:N049.00.00.000:E011.00.00.000
SECTORLINE:L2
COORD:N049.00.00.000:E011.00.00.000
COORD:N049.00.00.000:E012.00.00.000
COORD:N048.00.00.000:E012.00.00.000
SECTORLINE:L3
COORD:N048.00.00.000:E012.00.00.000
COORD:N048.00.00.000:E011.00.00.000
SECTORLINE:L4
COORD:N048.00.00.000:E012.00.00.000
COORD:N048.30.00.000:E013.00.00.000
COORD:N049.00.00.000:E012.00.00.000
COORD:N048.00.00.000:E012.00.00.000
CIRCLE_SECTORLINE:C1:EDDM:10.5
DISPLAY:A:A:B
DISPLAY_SECTORLINE:L1:A:A:B
SECTOR:EDMMALB000105:000:10500
OWNER:ALB:NDG
ALTOWNER:day:NDG:ALB
BORDER:L1:L2:L3
ACTIVE:EDDM:08L
DEPAPT:EDDM:EDMO
ARRAPT:EDDM
GUEST:NDG:EDDM:*
SECTOR:EDMMTEG:10500:66000
OWNER:TEG:ALB
BORDER:L4
MSAW:MVA1:5000
COORD:N048.00.00.000:E012.00.00.000
COORD:N048.30.00.000:E013.00.00.000
COORD:N049.00.00.000:E012.00.00.000
COPX:*:*:GIVMI:EDDM:*:EDMMALB000105:EDMMTEG:*:12000:GIVMI
FIR_COPX:ARMUT:08L:ERNAS:*:26R:EDMMTEG:EDMMALB000105:24000:*:ERNAS
COPX:EDDM:26R:*:*:*:A:B:9000:*:X
";

pub const AIRWAY: &str = "GIVMI\t48.701094\t11.364803\t14\tY101\tB\tERNAS\t48.844669\t11.219353\t\tY\t\t\t\t\tN\n\
ERNAS\t48.844669\t11.219353\t14\tY101\tB\tTALAL\t49.108333\t11.085278\t9000\tY\tGIVMI\t48.701094\t11.364803\tNESTB\tN\n\
TALAL\t49.108333\t11.085278\t14\tY101\tB\t0\t0\t0\t0\tN\tERNAS\t48.844669\t11.219353\t9000\tN\n\
ARMUT\t49.723611\t12.323333\t14\tL603\tL\tGIVMI\t48.701094\t11.364803\t5000\tY\t\t\t\t\tN\n";

pub const ISEC: &str = "8900E\t 89.000000\t   0.000000\t15\n\
ASPAT\t 49.196175\t  10.725828\t15\n\
ERNAS\t 48.844669\t -11.219353\t15\n";

pub const AIRCRAFT: &str = "; ICAO aircraft\nA320\tML2J\tAIRBUS\tA320\nGLID\t-G0-\tALL\tGlider\nC172\tLL1P\tCESSNA\t172 Skyhawk\nA388\tJL4J\tAIRBUS\tA380-800\nH60\tMH2T\tSIKORSKY\tBlack Hawk,\nUH-60, continued\nDA42\tLL2P\tDIAMOND\tTwin Star\n";
pub const AIRLINES: &str = "; ICAO airlines\nDLH\tDEUTSCHE LUFTHANSA, AG, KOELN\tLUFTHANSA\tGERMANY\nAUA\tAUSTRIAN AIRLINES\tAUSTRIAN\tAUSTRIA\n";
pub const AIRPORTS: &str = "; ICAO airports\nEDDM\tMUNICH\tGermany\nEDMO\tOBERPFAFFENHOFEN\tGermany\nLOWI\tINNSBRUCK\tAustria\n";
pub const NAVDATA: &str = "EDDM\t48.353783\t11.786086\tMUENCHEN\nLOWI 47.260219 11.343964 INNSBRUCK AIRPORT\nSPJC -12.02 -77.11 LIMA\n";
pub const PRF: &str = "Settings\tsector\t\\EDMM.sct\nSettings\tairlines\t\\ICAO\\ICAO_Airlines.txt\nSettings\tairports\t\\ICAO\\ICAO_Airports.txt\nSettings\taircraft\t\\ICAO\\ICAO_Aircraft.txt\nSettings\tairways\t\\NavData\\airway.txt\nSettings\tairportcoords\t\\NavData\\icao.txt\nSettings\tSettingsfileSYMBOLOGY\t\\Settings\\Symbology.txt\nPlugins\tPlugin0\t\\Plugins\\TopSky\\TopSky.dll\nPlugins\tPlugin1\t\\Plugins\\Squawks\\Squawks.dll\nRecentFiles\tRecent1\t\\ASR\\EDDM_APP.asr\nLastSession\tcallsign\tEDMM_OBS\n";

pub const ASR: &str = "DisplayTypeName:Standard ES radar screen\nDisplayTypeNeedRadarContent:1\nDisplayTypeGeoReferenced:1\nAirports:EDDM:symbol\nVORs:MIQ:name\nNDBs:MNW:frequency\nFixes:ARMUT:symbol\nLow airways:L603:line\nHigh airways:Y101:name\nSids:EDDM SID 26R GIVMI1N:\nStars:EDDM STAR 08L:\nFree Text:Gates\\101:freetext\nGeo:EDDM Groundlayout:\nRegions:EDDM Taxiways:polygon\nGround Network:EDDM:taxiway\nARTCC boundary:Release line EDMM ARBAX Window:\nARTCC low boundary:RMZ EDMS:\nARTCC high boundary:EDMM ALB:\nRunways:EDDM 08L-26R:centerline\nRunways:EDMO 04-22:extended centerline 1 left ticks\nSECTORFILE:\\EDMM.sct\nSECTORTITLE:EDMM\nSHOWC:1\nSHOWSB:0\nBELOW:0\nABOVE:24500\nLEADER:-3\nSHOWLEADER:0\nTURNLEADER:0\nHISTORY_DOTS:5\nSIMULATION_MODE:1\nDISABLEPANNING:0\nDISABLEZOOMING:0\nDisplayRotation:0.00000\nTAGFAMILY:iCAS2-APP\nPLUGIN:TopSky plugin:HideMapData:TWR\nWINDOWAREA:47.687116:9.936633:49.020449:13.635539\n";
pub const ASR2: &str = "WINDOWAREA:N048.21.53.000:E011.48.32.000:N049.21.53.000:E012.48.32.000\nABOVE:0\nLEADER:5\n";

pub const SYMBOLOGY: &str = "SYMBOLOGY\nSYMBOLSIZE\nAirports:symbol:8881798:1.0:0:0:7\nAirports:name:8881798:2.5:0:0:7\nVORs:symbol:32768:1.0:0:0:7\nFixes:name:255:3.0:1:1:0\nLow airways:line:16711680:3.0:2:1:14\nHigh airways:line:65280:3.0:3:2:13\nLow airways:name:1:3.0:4:1:12\nSector:msaw:32768:2.0:0:2:8\nSector:active sector background:13158600:3.5:0:0:1\nGeo:line:-1:3.5:0:0:2\nSYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nSYMBOLITEM:LINETO 3 -3\nSYMBOLITEM:SETPIXEL 3 3\nSYMBOL:1\nSYMBOLITEM:ARC 0 0 5 0 360\nSYMBOLITEM:ARC 0 0 5 4 -90 360\nSYMBOLITEM:FILLARC 0 0 2.5 10 20\nSYMBOLITEM:FILLARC 0 0 2.5 3.5 10 20\nSYMBOLITEM:ELLIPSE 0 0 2\nSYMBOLITEM:ELLIPSE 0 0 2 3\nSYMBOLITEM:POLYGON 0 0 2 3 4 5\nSYMBOLITEM:FILLRECT 0 0 2 3\nSYMBOL:99\nSYMBOLITEM:MOVETO -4 3\nm_ClipArea:4\nEND\n";

pub const MAPS: &str = r"// maps
COLORDEF:Lake:20:30:255
LINESTYLEDEF:Fence:Solid:None:4,2,1
LINESTYLEDEF:Plain:Solid:None
SYMBOLDEF:Tower
MOVETO:0:0
LINETO:1:5
ARC:0:0:4:0:360
OVERRIDE_SCT_MAP:SID\EDDM SID
OVERRIDE_SCT_MAP:Geo
SCTFILEPATH:\x.sct

MAP:SYMBOLS
FOLDER:FIXES
COLOR:Active_Map_Type_20
ACTIVE:1
SYMBOL:Tower:ARMUT:ARMUT:3:-5
SYMBOL/LC:Tower:N048.21.53.000:E011.48.32.000
SYMBOL:FIX:48.5:11.5:Lbl:1:2

MAP:AOR ALTMUEHL
FOLDER:SECTORLINES
COLOR:Lake
ASRDATA:CTR,EDDM_APP
STYLE:Dot:1
LAYER:-2
ACTIVE:ID:*:*:IGL:*
ACTIVE:ID:IGL:*:*:*
AND_ACTIVE:CALLSIGN:*:EDDM_TWR:*:*
LINE:N048.21.53.000:E011.48.32.000:N048.22.53.000:E011.48.32.000
LINE:N048.22.53.000:E011.48.32.000:N048.22.53.000:E011.49.32.000
LINE:ARMUT:GIVMI
TEXT:N048.21.53.000:E011.48.32.000:Hello world
TEXT/LT:ERNAS:Text
COORD:N048.21.53.000:E011.48.32.000
COORD:ARMUT
COORD:48.6:11.7
COORDPOLY:50
COORD:N048.21.53.000:E011.48.32.000
COORD:N048.22.53.000:E011.48.32.000
COORDLINE

MAP:EDMO_RNP22
ASRDATA:*
ZOOM:9
FONTSIZE:+:2
FONTSIZE:0
FONTSTYLE:0
TEXTALIGN:LC
COLOR:Active_Map_Type_20
ACTIVE:RWY:ARR:EDMO22:DEP:*
ACTIVE:RWY:ARR:EDMO22,EDDM08L:*:DEP:*:EDMO04
ACTIVE:0101:1231:12345:0600:2200
ACTIVE:AREA:EDR1,EDR2:EDR3
ACTIVE:AUP:EDR1,EDR2
ACTIVE:NOTAM:EDMM:EDR1
ACTIVE:MAP:=:FIXES\SYMBOLS
GLOBAL
HIDDEN
SCREEN-SPECIFIC
COORD_CIRCLE:N048.21.53.000:E011.48.32.000:5:10
COORD_AF:ARMUT:5:10:20:<:3
COORD_HM:ARMUT:90:R:1MIN:210KTS:3
COORD_PBD:EDDM/08L:5:3
SCTDATA:SID\EDDM SID
";
pub const TSYMBOLS: &str = "SYMBOL:AIRPORT\nMOVETO:0:0\nLINETO:5:5\nFILLARC:0:0:3:0:360\nSYMBOL:FIX\nPOLYGON:0:0:5:5:5:0\nELLIPSE:0:0:3:4\nSYMBOL:NDB\nSETPIXEL:0:0\nFILLRECT:0:0:2:2\n";
pub const TSETTINGS: &str = "//settings\nSetup_COOPANS=1\nFont_Size=13\nColor_Active_Map_Type_16=160,160,160 // grey\nColor_Active_Map_Type_18=0,160,0\nColor_Empty\nAirspace_ASSR_Type=2\nTrack_Vector=3\n[_APP]\nColor_Active_Map_Type_17=205,255,255\n{EDMM_}\nFont_Size=1\n";
pub const SQUAWKS: &str = r##"{"NonDiscreteColor":"#ff0000","NonDiscreteMessage":"ND","NonDiscrete":["0000","1000"],"Squawks":[{"code":"7700","message":"EMG","color":"#ff8800"},{"range":{"start":"0001","end":"0017"},"message":"X","color":"#00ff00"}]}"##;
pub const OVERLAY: &str = "{ name: 'overlaid', settings+: { }, sectors+: { } }\n";

pub static F_SCT: Format = Format::new("sct", &["base.pest", "sct.pest"], "sct", &[SCT]);
pub static F_ESE: Format = Format::new("ese", &["base.pest", "ese.pest"], "ese", &[ESE]);
pub static F_AIRWAY: Format = Format::new("airway", &["airway.pest"], "airways", &[AIRWAY]);
pub static F_ISEC: Format = Format::new("isec", &["isec.pest"], "wpts", &[ISEC]);
pub static F_AIRCRAFT: Format =
    Format::new("aircraft", &["base.pest", "icao_aircraft.pest"], "aircraft", &[AIRCRAFT]);
pub static F_AIRLINES: Format =
    Format::new("airlines", &["base.pest", "icao_airlines.pest"], "airlines", &[AIRLINES]);
pub static F_AIRPORTS: Format =
    Format::new("airports", &["base.pest", "icao_airports.pest"], "aircraft", &[AIRPORTS]);
pub static F_NAVDATA: Format =
    Format::new("navdata", &["base.pest", "navdata_airports.pest"], "airports", &[NAVDATA]);
pub static F_PRF: Format = Format::new("prf", &["prf.pest"], "prf", &[PRF]);
pub static F_ASR: Format = Format::new("asr", &["asr.pest"], "asr", &[ASR, ASR2]);
pub static F_SYMBOLOGY: Format =
    Format::new("symbology", &["base.pest", "symbol_rule.pest", "symbology.pest"], "symbology", &[SYMBOLOGY]);
pub static F_MAPS: Format =
    Format::new("maps", &["base.pest", "symbol_rule.pest", "topsky.pest"], "maps", &[MAPS]);
pub static F_TSYMBOLS: Format =
    Format::new("symbols", &["base.pest", "symbol_rule.pest", "topsky.pest"], "symbols", &[TSYMBOLS]);
pub static F_TSETTINGS: Format =
    Format::new("topsky settings", &["topsky_settings.pest"], "settings", &[TSETTINGS]);
pub static F_SQUAWKS: Format = Format::new("squawks", &[], "", &[SQUAWKS]);
pub static F_OVERLAY: Format = Format::new("overlay", &[], "", &[OVERLAY]);
pub static F_TOML: Format = Format::new("toml", &[], "", &["prf = 'x.prf'\noverlays = ['o.jsonnet']\n"]);
