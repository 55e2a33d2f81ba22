"""Required behaviour of the monitor that draws figures (analysed, never run)."""
import matplotlib.pyplot as plt
from sympl import PlotFunctionMonitor, get_backend


def got_plot_shown(plot_function: 'any', state: 'map:any'):
    """C04 | at=sympl.PlotFunctionMonitor.store heap=state calls=plot_function"""
    PlotFunctionMonitor(plot_function, interactive=False).store(state)


def want_plot_shown(plot_function: 'any', state: 'map:any'):
    plt.ioff()
    fig = plt.figure()
    given = {}
    for name, quantity in state.items():
        if isinstance(quantity, get_backend().get_container_type()):
            given[name] = quantity.copy(deep=True)
        else:
            given[name] = quantity
    plot_function(fig, given)
    fig.canvas.draw()
    plt.show()


def got_plot_animated(plot_function: 'any', state: 'map:any'):
    """C04 | at=sympl.PlotFunctionMonitor.store heap=state calls=plot_function"""
    PlotFunctionMonitor(plot_function).store(state)


def want_plot_animated(plot_function: 'any', state: 'map:any'):
    plt.ion()
    fig = plt.figure()
    fig.clear()
    given = {}
    for name, quantity in state.items():
        if isinstance(quantity, get_backend().get_container_type()):
            given[name] = quantity.copy(deep=True)
        else:
            given[name] = quantity
    plot_function(fig, given)
    fig.canvas.draw()
