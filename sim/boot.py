"""Imports the code under test from the working tree, under the simulation's seams."""
import os
import sys
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PKGS = ('launch', 'launch_testing', 'launch_pytest', 'launch_xml', 'launch_yaml',
        'test_launch_testing', 'launch_testing_ament_cmake')


def _stub_ament():
    """ament_index_python is not installed here; its only use is to find launch's share folder."""
    m = types.ModuleType('ament_index_python')
    p = types.ModuleType('ament_index_python.packages')

    def get_package_share_directory(name):
        return os.path.join(REPO, name, 'share', name)

    class PackageNotFoundError(KeyError):
        pass
    p.get_package_share_directory = get_package_share_directory
    p.PackageNotFoundError = PackageNotFoundError
    m.packages = p
    m.get_package_share_directory = get_package_share_directory
    m.PackageNotFoundError = PackageNotFoundError
    sys.modules['ament_index_python'] = m
    sys.modules['ament_index_python.packages'] = p


def boot():
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    for pkg in reversed(PKGS):
        sys.path.insert(0, os.path.join(REPO, pkg))
    _stub_ament()
    from . import core
    core.install_time_and_threads()
    for v in ('ROS_HOME', 'OVERRIDE_LAUNCH_PROCESS_OUTPUT', 'OVERRIDE_LAUNCH_SCREEN_FORMAT',
              'OVERRIDE_LAUNCH_LOG_FORMAT'):
        os.environ.pop(v, None)
    import launch
    import launch.logging
    import launch.actions
    import launch.event_handlers
    import launch.events
    import launch.events.process
    import launch.substitutions
    import launch.conditions
    where = os.path.realpath(launch.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('launch imported from %s, not from %s' % (where, REPO))
    from . import aio
    aio.install()
    core.install_line_preemption(
        tuple(os.path.join(REPO, p) + os.sep for p in PKGS),
        ('/launch/logging/',))
    return launch
