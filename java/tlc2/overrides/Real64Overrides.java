package tlc2.overrides;

/** Registers Real64 next to the CommunityModules' own overrides. */
public final class Real64Overrides implements ITLCOverrides {
    @Override
    public Class[] get() {
        try {
            final Class[] cm = ((ITLCOverrides) Class.forName("tlc2.overrides.TLCOverrides")
                    .getDeclaredConstructor().newInstance()).get();
            final Class[] all = new Class[cm.length + 1];
            System.arraycopy(cm, 0, all, 0, cm.length);
            all[cm.length] = Real64.class;
            return all;
        } catch (final ReflectiveOperationException e) {
            return new Class[] { Real64.class };
        }
    }
}
