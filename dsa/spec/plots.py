"""reference drawings (never executed)"""
import matplotlib.pyplot as plt


def canvas(height, width, dpi):
    fig = plt.figure(figsize=(width / dpi, height / dpi))
    plt.axes([0.0, 0.0, 1.0, 1.0])
    plt.axis((0, width, 0, height))


def save_plot_image(file_path, list_lines, height, width, overwrite=True,
                    dpi=100):
    canvas(height, width, dpi)
    for line in list_lines:
        for p in line:
            plt.plot(p[1], height - p[0])
    plt.savefig(file_path, dpi=dpi)


def save_plot_points(file_path, list_points, height, width, overwrite=True,
                     dpi=100, marker="o", color="blue"):
    canvas(height, width, dpi)
    for p in list_points:
        plt.plot(p[1], height - p[0], marker, color=color)
    plt.savefig(file_path, dpi=dpi)


def save_residual_plot(file_path, list_data, height, width, overwrite=True,
                       dpi=100, font_family=None):
    plt.figure(figsize=(width / dpi, height / dpi))
    for p in list_data:
        plt.plot(p[0], p[1])
    plt.xlabel('Radius')
    plt.ylabel('Residual')
    plt.savefig(file_path, dpi=dpi)
