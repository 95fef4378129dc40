--------------------------- MODULE MaterialTable ---------------------------
(* Reference parameters of the predefined materials: oscillators (w_P, w_R, gamma)
   in rad/s and magnetic data (mu(0), w_M), as documented in materials.py.       *)
EXTENDS Num
MatNames == {"Altern1Ps", "Altern2Ps", "AlternEth", "Artificial", "Bromobenzene", "Ethanol", "Gold", "Gold_Bimonte", "Gold_magnetic", "Gold_plasma", "Gold_plasma_wp01", "Gold_plasma_wp1", "Gold_plasma_wp10", "Mercury", "MercurySmith", "MercurySmith_plasma", "Mercury_plasma", "PerfectConductor", "Polystyrene", "Ptfe", "SiC", "SiC_plasma", "Silicon", "Silver", "Silver_plasma", "Vacuum", "Water", "modifiedWater"}

MatDef(n) ==
  CASE n = "Altern1Ps" -> [kind |-> "lorentz", e |-> <<<<<<1,3,<<1670,0,0,0,0,0,0>>>>, <<1,4,<<1,5200,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<2,9700,0,0,0,0,0>>>>, <<1,4,<<20,1000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<789,0,0,0,0,0,0>>>>, <<1,4,<<5890,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<34,8000,0,0,0,0,0>>>>, <<1,4,<<199,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<5010,0,0,0,0,0,0>>>>, <<1,4,<<9100,0,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,2200,0,0,0,0,0>>>>, <<1,5,<<1,5500,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,6300,0,0,0,0,0>>>>, <<1,5,<<2,8600,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,4200,0,0,0,0,0>>>>, <<1,5,<<7,8200,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "Altern2Ps" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<31,7000,0,0,0,0,0>>>>, <<1,4,<<179,0,0,0,0,0,0>>>>, Zero>>, <<<<1,3,<<1480,0,0,0,0,0,0>>>>, <<1,4,<<1,3700,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<2,6600,0,0,0,0,0>>>>, <<1,4,<<18,1000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<227,0,0,0,0,0,0>>>>, <<1,4,<<2370,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<5030,0,0,0,0,0,0>>>>, <<1,4,<<9300,0,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,2400,0,0,0,0,0>>>>, <<1,5,<<1,5300,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,9800,0,0,0,0,0>>>>, <<1,5,<<3,700,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,5200,0,0,0,0,0>>>>, <<1,5,<<10,4000,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "AlternEth" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<2,4100,0,0,0,0,0>>>>, <<1,4,<<2,4600,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<8,3500,0,0,0,0,0>>>>, <<1,4,<<6,5600,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<63,7000,0,0,0,0,0>>>>, <<1,4,<<170,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<3700,0,0,0,0,0,0>>>>, <<1,5,<<1,400,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,4900,0,0,0,0,0>>>>, <<1,5,<<2,3100,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,1700,0,0,0,0,0>>>>, <<1,5,<<2,3700,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,7700,0,0,0,0,0>>>>, <<1,5,<<6,6500,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "Artificial" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<100,0,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Bromobenzene" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<1,7800,0,0,0,0,0>>>>, <<1,4,<<7,6300,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<6,3700,0,0,0,0,0>>>>, <<1,4,<<46,9000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<36,8000,0,0,0,0,0>>>>, <<1,4,<<169,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<7480,0,0,0,0,0,0>>>>, <<1,5,<<1,300,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,6200,0,0,0,0,0>>>>, <<1,5,<<2,200,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,7900,0,0,0,0,0>>>>, <<1,5,<<3,6500,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,4600,0,0,0,0,0>>>>, <<1,5,<<15,2000,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "Ethanol" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<3222,5306,8255,3697,5000,0,0>>>>, <<1,4,<<660,0,0,0,0,0,0>>>>, <<1,4,<<1,0,0,0,0,0,0>>>>>>, <<<<1,5,<<1,522,6384,5240,3466,0,0>>>>, <<1,5,<<1,1400,0,0,0,0,0>>>>, <<1,4,<<1,0,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "Gold" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,3700,0,0,0,0,0>>>>, Zero, <<1,4,<<57,7000,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "Gold_Bimonte" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,3700,0,0,0,0,0>>>>, Zero, <<1,4,<<53,2000,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "Gold_magnetic" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,3700,0,0,0,0,0>>>>, Zero, <<1,4,<<57,7000,0,0,0,0,0>>>>>>>>, b |-> <<<<1,1,<<4,0,0,0,0,0,0>>>>, <<1,3,<<10,0,0,0,0,0,0>>>>>>]
    [] n = "Gold_plasma" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,3700,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Gold_plasma_wp01" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<1370,0,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Gold_plasma_wp1" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,3700,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Gold_plasma_wp10" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<13,7000,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Mercury" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<5400,0,0,0,0,0,0>>>>, Zero, <<1,4,<<250,0,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "MercurySmith" -> [kind |-> "smith", e |-> <<<<<<1,5,<<1,9800,0,0,0,0,0>>>>, Zero, <<1,4,<<1647,0,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "MercurySmith_plasma" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,9800,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Mercury_plasma" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<5400,0,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "PerfectConductor" -> [kind |-> "pec", e |-> <<>>, b |-> <<>>]
    [] n = "Polystyrene" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<110,8000,0,0,0,0,0>>>>, <<1,4,<<554,0,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<2,1060,0,0,0,0,0>>>>, <<1,5,<<1,3500,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "Ptfe" -> [kind |-> "lorentz", e |-> <<<<<<1,3,<<440,0,0,0,0,0,0>>>>, <<1,3,<<4560,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<1,5600,0,0,0,0,0>>>>, <<1,4,<<11,5000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<31,5000,0,0,0,0,0>>>>, <<1,4,<<84,6000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<64,1000,0,0,0,0,0>>>>, <<1,4,<<191,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<4500,0,0,0,0,0,0>>>>, <<1,5,<<1,200,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,8700,0,0,0,0,0>>>>, <<1,5,<<2,8300,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<2,800,0,0,0,0,0>>>>, <<1,5,<<6,4000,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<2,3200,0,0,0,0,0>>>>, <<1,5,<<11,8000,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "SiC" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<700,0,0,0,0,0,0>>>>, Zero, <<1,4,<<150,0,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "SiC_plasma" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<700,0,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Silicon" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<55,3000,0,0,0,0,0>>>>, <<1,4,<<62,4000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<76,7000,0,0,0,0,0>>>>, <<1,4,<<170,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<110,0,0,0,0,0,0>>>>, <<1,4,<<170,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<106,0,0,0,0,0,0>>>>, <<1,4,<<169,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<4930,0,0,0,0,0,0>>>>, <<1,5,<<2,2000,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<2,3400,0,0,0,0,0>>>>, <<1,5,<<2,5800,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<5760,0,0,0,0,0,0>>>>, <<1,5,<<1,2400,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<3,2600,0,0,0,0,0>>>>, <<1,5,<<13,9000,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "Silver" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,4600,0,0,0,0,0>>>>, Zero, <<1,4,<<34,6000,0,0,0,0,0>>>>>>>>, b |-> <<>>]
    [] n = "Silver_plasma" -> [kind |-> "lorentz", e |-> <<<<<<1,5,<<1,4600,0,0,0,0,0>>>>, Zero, Zero>>>>, b |-> <<>>]
    [] n = "Vacuum" -> [kind |-> "lorentz", e |-> <<>>, b |-> <<>>]
    [] n = "Water" -> [kind |-> "lorentz", e |-> <<<<<<1,4,<<41,6000,0,0,0,0,0>>>>, <<1,4,<<34,8000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<4,1600,0,0,0,0,0>>>>, <<1,4,<<1,3300,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<11,0,0,0,0,0,0>>>>, <<1,4,<<7,4900,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<114,0,0,0,0,0,0>>>>, <<1,4,<<156,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<9000,0,0,0,0,0,0>>>>, <<1,5,<<1,4400,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,6300,0,0,0,0,0>>>>, <<1,5,<<3,1800,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,4800,0,0,0,0,0>>>>, <<1,5,<<4,100,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
    [] n = "modifiedWater" -> [kind |-> "lorentz", e |-> <<<<<<1,3,<<8000,0,0,0,0,0,0>>>>, <<1,3,<<1000,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<41,6000,0,0,0,0,0>>>>, <<1,4,<<34,8000,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<4,1600,0,0,0,0,0>>>>, <<1,4,<<1,3300,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<11,0,0,0,0,0,0>>>>, <<1,4,<<7,4900,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<114,0,0,0,0,0,0>>>>, <<1,4,<<156,0,0,0,0,0,0>>>>, Zero>>, <<<<1,4,<<9000,0,0,0,0,0,0>>>>, <<1,5,<<1,4400,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,6300,0,0,0,0,0>>>>, <<1,5,<<3,1800,0,0,0,0,0>>>>, Zero>>, <<<<1,5,<<1,4800,0,0,0,0,0>>>>, <<1,5,<<4,100,0,0,0,0,0>>>>, Zero>>>>, b |-> <<>>]
=============================================================================
