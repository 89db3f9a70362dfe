from checks.drawn import *

check = Check('C30', 'the effect log of a routine writes exactly the documented files below the given folder, after their '
              'directories exist, and nothing when saving is off')


def outputs(s, fn, args, folder, names, subs):
    sh = Shown(s, fn, args)
    s.true('returns', sh.r.guard())
    files(s, sh, folder, names, subs)


def quiet(s, fn, args):
    sh = Shown(s, fn, args)
    s.true('returns', sh.r.guard())
    silent(s, sh)


for lab, (f, folder) in FOLDERS.items():
    for n in (0, 1, 3):
        figs = ['figs/output%d.png' % k for k in range(n)]
        for fn in ('steady_plots', 'time_plots'):
            check.section('%s, %d steps, %s' % (fn, n, lab))(
                lambda s, fn=fn, n=n, f=f, folder=folder, figs=figs: outputs(
                    s, fn, stepping(n, f), folder, figs + ['data/data.txt'], ('', 'figs', 'data')))
    check.section('plot_exposure_time, ' + lab)(
        lambda s, f=f, folder=folder: outputs(s, 'plot_exposure_time', etd(f), folder, [
            'data/exposure_times.txt', 'figs/Exact_CETD.png', 'figs/Smooth_CETD.png', 'figs/ETD.png'], ('', 'figs', 'data')))
    check.section('plot_exposure_time_thresholds, ' + lab)(
        lambda s, f=f, folder=folder: outputs(s, 'plot_exposure_time_thresholds', etd(f), folder,
                                              ['figs/Smooth_CETD_thresholds.png'], ('figs',)))
check.section('steady_plots, saving off')(lambda s: quiet(s, 'steady_plots', stepping(2, const('out'), FALSE)))
check.section('plot_exposure_time, saving off')(lambda s: quiet(s, 'plot_exposure_time', etd(const('out'), FALSE)))
check.section('plot_exposure_time_thresholds, saving off')(
    lambda s: quiet(s, 'plot_exposure_time_thresholds', etd(const('out'), FALSE)))
