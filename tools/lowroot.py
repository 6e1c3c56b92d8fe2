import sys; sys.path.insert(0,'/repo'); sys.path.insert(0,'/verif/oracles')
import warnings; warnings.filterwarnings('ignore')
import numpy as np
import ghedt.peak_load_analysis_tool as plat, pygfunction as gt
eq=plat.equivalance; bh=plat.borehole_heat_exchangers
def run(k):
    fluid=gt.media.Fluid('MEG',0.); soil=plat.media.Soil(2.,2.3e6,18.3); grout=plat.media.Grout(1.,3.9e6)
    bor=gt.boreholes.Borehole(100.,2.,0.075,0,0)
    ri,ro=0.0108,0.0133
    pos=plat.media.Pipe.place_pipes(0.0323,ro,2)
    pipe=plat.media.Pipe(pos,ri,ro,0.0323,1e-6,k,1542e3)
    b=bh.MultipleUTube(0.5,fluid,bor,pipe,grout,soil)
    Vf,Vp,Rc,Rp=eq.u_tube_volumes(b)
    # R_conv chosen so that the lower end of the bracket is the root
    for n in range(3):
        e=eq.equivalent_single_u_tube(b,Vf,Vp,Rc,Rp)
        k0=np.log(np.sqrt((Vf+Vp)/(2*np.pi))/np.sqrt(Vf/(2*np.pi)))/(4*np.pi*Rp)
        e.pipe.k=k0/100; e.update_thermal_resistance()
        Rc=e.R_fp-Rp
    e.pipe.k=k0/100; e.update_thermal_resistance(); f=e.R_fp-(Rc+Rp)
    e=eq.equivalent_single_u_tube(b,Vf,Vp,Rc,Rp)
    return f, e.R_fp, Rc+Rp
for k in np.linspace(.2,.6,9): print(run(k))
