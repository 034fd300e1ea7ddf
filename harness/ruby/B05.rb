require_relative 'core'
RULE = "each case defines types of all kinds in one or two registries through the bindings and applies a random history of aliases, removals, merges, extractions, " \
       "resizings, metadata changes and refused operations; after every step the listings, and the definitions of random types as Ruby shows them, are " \
       "compared with a model. Non-trivial: at least six types and one operation that changed several; distinct by final content."

# A definition, by names only
Def = Struct.new(:kind, :size, :info, :meta, :field_meta) do
    def deps
        case kind
        when :compound then info.map { |_, t, _| t }.uniq
        when :array then [info[0]]
        when :pointer, :container then [info.last]
        else []
        end
    end
    def copy; Def.new(kind, size, Marshal.load(Marshal.dump(info)), Marshal.load(Marshal.dump(meta)), Marshal.load(Marshal.dump(field_meta))) end
    def content; [kind, size, info] end
end

class Model
    attr_reader :types, :aliases
    def initialize(types = {}, aliases = {}); @types, @aliases = types, aliases end
    def dup; Model.new(types.map { |n, d| [n, d.copy] }.to_h, aliases.dup) end
    def resolve(n); types[n] ? n : aliases[n] end
    def has?(n); types.key?(n) || aliases.key?(n) end
    def names; types.keys + aliases.keys end
    def aliases_of(n); aliases.select { |_, t| t == n }.keys end
    def array_name(e, n); "#{e}[#{n}]" end
    def indirect_name(d, e)
        case d.kind
        when :array then "#{e}[#{d.info[1]}]"
        when :pointer then "#{e}*"
        # strings are not named after their elements
        when :container then d.info[0] == '/std/string' ? '/std/string' : "#{d.info[0]}<#{e}>"
        end
    end
    # the names that follow from aliases of what a type is made of
    def trigger(n)
        d = types[n]
        return unless [:array, :pointer, :container].include?(d.kind)
        aliases_of(d.deps[0]).each do |a|
            derived = indirect_name(d, a)
            add_alias(derived, n) unless has?(derived)
        end
    end
    def define(n, d)
        types[n] = d
        trigger(n)
    end
    def add_alias(a, n)
        aliases[a] = n
        types.keys.each { |t| trigger(t) if types[t].deps.include?(n) }
    end
    def dependents(n)
        set = [n]
        set.each { |x| types.each { |t, d| set << t if d.deps.include?(x) && !set.include?(t) } }
        set
    end
    def closure(n)
        set = [n]
        set.each { |x| types[x].deps.each { |t| set << t unless set.include?(t) } }
        set
    end
    def remove(n)
        gone = dependents(n)
        gone.each { |t| types.delete(t) }
        aliases.delete_if { |_, t| gone.include?(t) }
        gone
    end
    # nil when they can be merged
    def conflict(other)
        other.types.each do |n, d|
            if (r = resolve(n))
                return n unless same?(r, other, n)
            end
        end
        other.aliases.each do |a, t|
            r = resolve(a)
            return a if r && !same?(r, other, t)
        end
        nil
    end
    def same?(n, other, m)
        a, b = types[n], other.types[m]
        return false unless a.kind == b.kind && a.size == b.size
        case a.kind
        when :compound
            a.info.size == b.info.size && a.info.zip(b.info).all? { |(f, t, o), (g, u, p)| f == g && o == p && same?(t, other, u) }
        when :array then a.info[1] == b.info[1] && same?(a.info[0], other, b.info[0])
        when :pointer then same?(a.info[0], other, b.info[0])
        when :container then a.info[0] == b.info[0] && same?(a.info[1], other, b.info[1])
        when :opaque then n == m
        else a.info == b.info
        end
    end
    def merge(other)
        order = other.types.keys
        done = {}
        visit = lambda do |n|
            next if done[n]
            done[n] = true
            other.types[n].deps.each(&visit)
            define(n, other.types[n].copy) unless has?(n)
        end
        order.each(&visit)
        other.aliases.each { |a, t| add_alias(a, resolve(t)) unless has?(a) }
        other.types.each { |n, d| merge_meta(types[resolve(n)], d) if resolve(n) }
    end
    def merge_meta(a, b)
        return if a.equal?(b)
        b.meta.each { |k, v| a.meta[k] = (a.meta[k] || []) | v }
        b.field_meta.each { |f, m| m.each { |k, v| (a.field_meta[f] ||= {})[k] = (a.field_meta[f][k] || []) | v } }
    end
    def minimal(names, with_aliases)
        r = Model.new
        sub = Model.new(names.flat_map { |n| closure(n) }.uniq.map { |n| [n, types[n].copy] }.to_h, {})
        r.merge(sub)
        aliases.each { |a, t| r.add_alias(a, t) if r.types[t] && !r.has?(a) && with_aliases.call(a) }
        r
    end
    def resize(sizes)
        done = {}
        grow = lambda do |n|
            next done[n] if done.key?(n)
            d = types[n]
            done[n] = 0
            before = d.size
            if sizes[n] then d.size = sizes[n]
            elsif d.kind == :compound
                delta = 0
                d.info = d.info.map { |f, t, o| g = grow.call(t); r = [f, t, o + delta]; delta += g; r }
                d.size += delta
            elsif d.kind == :array
                d.size += grow.call(d.info[0]) * d.info[1]
            end
            done[n] = d.size - before
        end
        types.keys.each(&grow)
    end
end

class Case
    def self.setup(ctx)
        const_set(:KINDS, { numeric: Typelib::NumericType, enum: Typelib::EnumType, compound: Typelib::CompoundType, array: Typelib::ArrayType,
            pointer: Typelib::PointerType, container: Typelib::ContainerType, opaque: Typelib::OpaqueType, null: Typelib::NullType })
        @@bases = [Typelib::Registry, Typelib::CXXRegistry].map { |k| [k, base(k)] }
    end
    # what a new registry has, as definitions
    def self.base(klass)
        reg = klass.new
        m = Model.new
        reg.each(with_aliases: true) do |n, t|
            if n != t.name then m.aliases[n] = t.name
            else m.types[n] = describe(t)
            end
        end
        m
    end
    def self.describe(t)
        kind = KINDS.find { |_, c| t <= c }&.first
        raise "unexpected class of #{t}" unless kind
        info = case kind
               when :numeric then t.integer? ? (t.unsigned? ? :uint : :sint) : :float
               when :enum then t.keys.sort
               when :compound then t.fields.map { |n, f| [n, f.name, t.offset_of(n)] }
               when :array then [t.deference.name, t.length]
               when :pointer then [t.deference.name]
               when :container then [t.container_kind, t.deference.name]
               end
        fm = kind == :compound ? t.fields.map { |n, _| [n, t.field_metadata[n].keys.map { |k| [k, t.field_metadata[n].get(k)] }.to_h] }.to_h.delete_if { |_, v| v.empty? } : {}
        Def.new(kind, t.size, info, t.metadata.keys.map { |k| [k, t.metadata.get(k)] }.to_h, fm)
    end

    def initialize(ctx); @c, @r, @n = ctx, ctx.rng, 0 end

    NS = %w{/ /a/ /a/b/ /cc/}
    def name(prefix); "#{@r.pick(NS)}#{prefix}#{@n += 1}" end
    def any(*kinds)
        l = @m.types.select { |_, d| kinds.empty? || kinds.include?(d.kind) }.keys
        l = @r.chance(2, 3) ? l.reject { |n| @base.types.key?(n) } : l
        l.empty? ? nil : @r.pick(l)
    end
    def any_name
        n = any
        n && @r.chance(1, 4) && !(a = @m.aliases_of(n)).empty? ? @r.pick(a) : n
    end
    # the ways to say which type is meant
    def said(n); @r.chance(1, 2) ? n : @reg.get(n) end

    # ---- the definitions
    def create
        case k = @r.below(9)
        when 0..1
            n, s, c = name('N'), @r.pick([1, 2, 4, 8]), @r.pick([:sint, :uint, :float])
            s = @r.pick([4, 8]) if c == :float
            @c.step("create_numeric #{n} #{s} #{c}")
            t = @reg.create_numeric(n, s, c)
            @m.define(n, Def.new(:numeric, s, c, {}, {}))
        when 2
            n, size = name('E'), @r.pick([0, 0, 4])
            next_value, syms = 0, []
            @r.range(1, 5).times do |i|
                v = @r.chance(1, 2) ? nil : @r.range(-20, 20) * 7
                next if v && syms.any? { |_, x, _| x == v } || !v && syms.any? { |_, x, _| x == next_value }
                syms << ["S#{i}", v || next_value, v]
                next_value = (v || next_value) + 1
            end
            syms << ["S", 1000, 1000] if syms.empty?
            @c.step("create_enum #{n} #{syms.inspect}")
            t = @reg.create_enum(n, size) do |b|
                syms.each do |s, _, v|
                    case @r.below(2)
                    when 0 then v ? b.add(@r.chance(1, 2) ? s : s.to_sym, v) : b.add(s)
                    else v ? b.send("#{s}=", v) : b.send(s)
                    end
                end
            end
            @m.define(n, Def.new(:enum, 4, syms.map { |s, v, _| [s, v] }.sort, {}, {}))
        when 3..4
            n = name('C')
            at, ends, fields = 0, 0, []
            @r.range(0, 4).times do |i|
                f = any_name or next
                d = @m.types[@m.resolve(f)]
                next if d.kind == :null
                given = @r.chance(1, 3) ? at + @r.range(0, 9) : nil
                # structures whose fields overlap are not resized here
                if fields.last && at - fields.last[2] > 2 && @overlap && @r.chance(1, 3)
                    given = @r.range(fields.last[2] + 1, at - 1)
                    @c.count('overlapping fields')
                end
                fields << ["f#{i}", f, given || at, given]
                at = (given || at) + d.size
                ends = [ends, at].max
            end
            size = @r.chance(1, 4) ? ends + @r.range(0, 5) : 0
            @c.step("create_compound #{n} #{size} #{fields.inspect}")
            t = @reg.create_compound(n, size) do |b|
                fields.each do |f, type, _, given|
                    if !given && @r.chance(1, 2) then b.send("#{f}=", said(type))
                    elsif given then b.add(f, said(type), given)
                    else b.add(@r.chance(1, 2) ? f.to_sym : f, @r.chance(1, 4) ? type.to_sym : said(type))
                    end
                end
            end
            @m.define(n, Def.new(:compound, size == 0 ? ends : size, fields.map { |f, type, o, _| [f, @m.resolve(type), o] }, {}, {}))
        when 5
            n, s = name('O'), @r.chance(1, 8) ? @r.range(30_000, 5_000_000) : @r.range(0, 40)
            @c.count('large types') if s > 40
            @c.step("create_opaque #{n} #{s}")
            t = @reg.create_opaque(n, s)
            @m.define(n, Def.new(:opaque, s, nil, {}, {}))
        when 6
            return create if @r.chance(2, 3)
            n = name('Z')
            @c.step("create_null #{n}")
            t = @reg.create_null(n)
            @m.define(n, Def.new(:null, 0, nil, {}, {}))
        else return derive
        end
        @c.ck(t.equal?(@reg.get(n)) && t.name == n, 'created') { "creating #{n} returned #{t}" }
        @c.count("created #{KINDS.keys[[0, 0, 1, 2, 2, 6, 7][k]]}")
    end

    def derive
        e = any_name or return
        # names that derive from an alias outlive it
        return unless @m.has?(e[/\A(.*?)(\*|\[\d+\])*\z/, 1])
        n = @m.resolve(e)
        d = @m.types[n]
        case k = @r.below(3)
        when 0
            len = @r.range(1, 6)
            full = "#{n}[#{len}]"
            return if d.kind == :null || d.size * len > 4000 || n.count('[') + n.count('*') > 3
            @c.step("create_array #{e} #{len}")
            t = @r.chance(1, 3) ? @reg.build("#{e}[#{len}]") : @reg.create_array(said(e), len)
            full = @m.resolve(full) || full
            @m.define(full, Def.new(:array, d.size * len, [n, len], {}, {})) unless @m.has?(full)
        when 1
            return if n.count('[') + n.count('*') > 3
            full = "#{n}*"
            @c.step("to_ptr #{e}")
            t = @r.chance(1, 3) ? @reg.build("#{e}*") : @reg.get(e).to_ptr
            full = @m.resolve(full) || full
            @m.define(full, Def.new(:pointer, 8, [n], {}, {})) unless @m.has?(full)
        else
            return if d.kind == :null || d.size == 0 || n.count('<') > 2 || n =~ /[\*\[]/
            full = "/std/vector<#{n}>"
            @c.step("create_container #{e}")
            t = @reg.create_container('/std/vector', said(e))
            full = @m.resolve(full) || full
            @m.define(full, Def.new(:container, 24, ['/std/vector', n], {}, {})) unless @m.has?(full)
        end
        @c.ck(t.equal?(@reg.get(full)) && t.name == full, 'derived') { "deriving #{full} returned #{t}" }
        @c.ck(t.deference.equal?(@reg.get(n)), 'deference') { "#{t} leads to #{t.deference}" }
        @c.count("created #{[:array, :pointer, :container][k]}")
    end

    # ---- the other operations
    def make_alias
        t = any_name or return
        n = name('al')
        @c.step("alias #{n} #{t}")
        @reg.alias(n, t)
        @m.add_alias(n, @m.resolve(t))
        @c.count('aliases')
    end
    def remove
        n = any or return
        return if @base.types.key?(n)
        t = @reg.get(n)
        @c.step("remove #{n}")
        gone = @reg.remove(t)
        expected = @m.remove(n)
        @changed = true if expected.size > 1
        @c.ck(gone.map(&:name).sort == expected.sort, 'removed') { "removing #{n} removed #{gone.map(&:name)} instead of #{expected}" }
        gone.each do |g|
            @c.ck(!@reg.include?(g.name), 'still there') { "#{g.name} is still there" }
            @c.ck(g.size.kind_of?(Integer) && g.name.kind_of?(String) && g.to_s, 'removed-use') { "removed type cannot be used" }
        end
        @c.count('types removed', gone.size)
    end
    def aliases
        l = @m.aliases.keys - @base.aliases.keys
        if @r.chance(1, 12)
            @c.step("clear_aliases")
            @reg.clear_aliases
            @m.aliases.clear
        elsif !l.empty?
            a = @r.pick(l)
            @c.step("remove_alias #{a}")
            @reg.remove_alias(a)
            @m.aliases.delete(a)
        end
    end
    def metadata
        n = any_name or return
        d, t = @m.types[@m.resolve(n)], @reg.get(n)
        where = d.meta
        md = t.metadata
        if d.kind == :compound && !d.info.empty? && @r.chance(1, 2)
            f = @r.pick(d.info)[0]
            where = d.field_meta[f] ||= {}
            md = t.field_metadata[f]
        end
        k = @r.pick(%w{doc k1 k2} << "k\u00e9")
        vs = Array.new(@r.range(1, 3)) { @r.pick(["v", "w w", "<x>&\"", "l1\nl2", "", "\u00e9"]) }.uniq
        @c.step("metadata of #{n}: #{k} #{vs}")
        case @r.below(6)
        when 0..2
            md.add(k, *vs)
            where[k] = ((where[k] || []) | vs).sort
        when 3
            md.set(k, *vs)
            where[k] = vs.sort
        when 4
            @r.chance(1, 2) ? md.delete(k) : md.clear(k)
            where.delete(k)
        else
            md[k] = vs[0]
            where[k] = [vs[0]]
        end
        d.field_meta.delete_if { |_, v| v.empty? }
        @c.count('metadata changes')
    end
    def resize
        return if @overlap
        sizes = {}
        @r.range(1, 3).times { n = any(:opaque, :numeric) or next; sizes[n] = @m.types[n].size + @r.range(0, 20) unless @base.types.key?(n) }
        return if sizes.empty?
        # what is made of pointers and opaques is not resized through vectors of them
        return if sizes.keys.any? { |n| @m.dependents(n).any? { |t| @m.types[t].kind == :container } }
        @c.step("resize #{sizes}")
        if sizes.size == 1 && @r.chance(1, 2) then @reg.resize_type(said(sizes.keys[0]), sizes.values[0])
        else @reg.resize(sizes.map { |n, s| [said(n), s] }.to_h)
        end
        @changed = true if sizes.keys.any? { |n| @m.dependents(n).size > 1 }
        @m.resize(sizes)
        @c.count('resizings')
    end

    # ---- registries made of this one
    def extract
        case @r.below(6)
        when 0
            n = any_name or return
            wa = @r.pick([true, false, nil])
            @c.step("minimal #{n} #{wa.inspect}")
            r = wa.nil? ? (@r.chance(1, 2) ? @reg.minimal(n) : @reg.get(n).minimal_registry) : @reg.minimal(n, wa)
            check(r, @m.minimal([@m.resolve(n)], lambda { |_| wa != false }), 'minimal')
        when 1
            o, om = other
            wa = @r.pick([true, false, nil])
            @c.step("minimal of what another registry lacks, #{wa.inspect}")
            r = wa.nil? ? @reg.minimal(o) : @reg.minimal(o, wa)
            has = lambda { |n| om.has?(n) || om.has?(n.sub(/(\*|\[\d+\])+\z/, '')) }
            check(r, @m.minimal(@m.types.keys.reject(&has), lambda { |a| wa == true || !has[a] }), 'minimal-other')
            check(o, om, 'minimal-other-argument')
        when 2
            @c.step("dup")
            r = @reg.dup
            @m2 = @base.dup
            @m2.merge(@m)
            check(r, @m2, 'dup')
            # one does not follow the other
            old, @reg = @reg, r
            keep, @m = @m, @m2
            rand_changes(3)
            check(old, keep, 'dup-original')
            @reg, @m = old, keep if @r.chance(1, 2)
        when 3
            @c.step("xml")
            r = Typelib::Registry.from_xml(@reg.to_xml)
            @m.types.each do |n, d|
                next if [:array, :pointer].include?(d.kind)
                @c.ck(r.include?(n), 'xml-lost') { "#{n} is lost in XML" }
                check_type(r, @m, n, 'xml')
            end
            @r.chance(1, 2) and r.each { |t| @c.ck(@m.resolve(t.name), 'xml-new') { "#{t.name} appears in XML" } }
        when 4
            n = any_name or return
            @c.step("add #{n} to another registry")
            r, rm = other
            sub = @m.minimal([@m.resolve(n)], lambda { |_| true })
            if rm.conflict(sub)
                e = raised { r.add(@reg.get(n)) }
                @c.ck(e, 'add-conflict') { "#{n} was added to a registry with another #{rm.conflict(sub)}" }
                return
            end
            r.add(@reg.get(n))
            rm.merge(sub)
            check(r, rm, 'add')
        else
            @c.step("merge into another registry")
            r, rm = other
            before = @m.dup
            if (bad = rm.conflict(@m))
                kept = rm.types.keys.map { |n| [n, r.get(n)] }
                e = raised { r.merge(@reg) }
                @c.ck(e, 'merge-conflict') { "merging was accepted although #{bad} differs" }
                kept.each { |n, t| @c.ck(r.get(n).equal?(t), 'merge-conflict-changed') { "#{n} was replaced by a refused merge" }; check_type(r, rm, n, 'merge-conflict', true) }
                check(@reg, before, 'merge-argument')
                return
            end
            @c.ck(r.merge(@reg).equal?(r), 'merge-result') { "merge did not return the registry" }
            rm.merge(@m)
            check(r, rm, 'merge')
            @reg, @m = r, rm if @r.chance(1, 2)
            check(r, rm, 'merge')
        end
        @changed = true
        @c.count('registries compared')
    end
    # another registry, that has some of the same types
    def other
        r, m = @klass.new, @base.dup
        @r.range(0, 3).times do
            n = any or next
            r.add(@reg.get(n))
            m.merge(@m.minimal([n], lambda { |_| true }))
        end
        if @r.chance(1, 2)
            n = @r.chance(1, 3) ? any(:numeric, :compound, :opaque, :enum) || name('N') : name('N')
            unless m.has?(n) || n =~ /</
                r.create_numeric(n, 8, :float)
                m.define(n, Def.new(:numeric, 8, :float, {}, {}))
            end
        end
        [r, m]
    end

    # ---- what is refused
    def refused
        known = any(:numeric, :compound, :opaque, :enum) or return
        al = @m.aliases.keys.sample(random: Random.new(@r.below(1000)))
        foreign = Typelib::Registry.new.create_numeric('/foreign', 4, :sint)
        bad = @r.pick(['', 'x', '/a b$', '/x-', '//x', '/x/', '/x[', '/x]2[', '/x<', '/a//b', "/new\n"])
        n = name('X')
        tries = [
            ['numeric again', lambda { @reg.create_numeric(known, 4, :sint) }],
            ['opaque again', lambda { @reg.create_opaque(al || known, 4) }],
            ['null again', lambda { @reg.create_null(known) }],
            ['enum again', lambda { @reg.create_enum(known) { |b| b.X = 1 } }],
            ['compound again', lambda { @reg.create_compound(known) { |b| b.x = known } }],
            ['numeric of a bad name', lambda { @reg.create_numeric(bad, 4, :uint) }],
            ['opaque of a bad name', lambda { @reg.create_opaque(bad, 4) }],
            ['null of a bad name', lambda { @reg.create_null(bad) }],
            ['enum of a bad name', lambda { @reg.create_enum(bad) { |b| b.X } }],
            ['compound of a bad name', lambda { @reg.create_compound(bad) { |b| b.x = known } }],
            ['numeric of an unknown category', lambda { @reg.create_numeric(n, 4, :complex) }],
            ['numeric of no size', lambda { @reg.create_numeric(n, @r.pick([nil, "4", :x, 2**70]), :sint) }],
            ['numeric of a negative size', lambda { @reg.create_numeric(n, -@r.range(1, 9), :sint) }],
            ['opaque of a negative size', lambda { @reg.create_opaque(n, -@r.range(1, 9)) }],
            ['numeric with a name that is no string', lambda { @reg.create_numeric(@r.pick([nil, 12, []]), 4, :sint) }],
            ['empty enum', lambda { @reg.create_enum(n) { |_| } }],
            ['enum without block', lambda { @reg.create_enum(n) }],
            ['enum with a symbol twice', lambda { @reg.create_enum(n) { |b| b.add('A', 1); b.add(@r.pick(['A', :A]), 2) } }],
            ['enum with a value that is no integer', lambda { @reg.create_enum(n) { |b| b.add('A', @r.pick([2**40, "x", []])) } }],
            ['enum of a negative size', lambda { @reg.create_enum(n, -4) { |b| b.A } }],
            ['compound of an unknown type', lambda { @reg.create_compound(n) { |b| b.x = @r.pick(['/nothing', '/nothing[2]', '/nothing*', '']) } }],
            ['compound of no type', lambda { @reg.create_compound(n) { |b| b.add('x', @r.pick([nil, 12, Object, String.new('x') ? Object.new : nil, Class])) } }],
            ['compound of a foreign type', lambda { @reg.create_compound(n) { |b| b.x = foreign } }],
            ['compound with a negative offset', lambda { @reg.create_compound(n) { |b| b.add('x', known, -@r.range(1, 50)) } }],
            ['compound of a negative size', lambda { @reg.create_compound(n, -4) { |b| b.x = known } }],
            ['compound smaller than its fields', lambda { @reg.create_compound(n, 9) { |b| b.add('x', known, @r.range(10, 40)) } }],
            ['container of an unknown type', lambda { @reg.create_container('/std/vector', '/nothing') }],
            ['container of an unknown kind', lambda { @reg.create_container(@r.pick(['/std/nothing', '', '/std/vector<']), known) }],
            ['container of a foreign type', lambda { @reg.create_container('/std/vector', foreign) }],
            ['array of an unknown type', lambda { @reg.create_array('/nothing', 3) }],
            ['array of no length', lambda { @reg.create_array(known, @r.pick(['', 'x', nil, '2x', -1])) }],
            ['unknown type', lambda { @r.chance(1, 2) ? @reg.get('/nothing') : @reg.build('/nothing*') }],
            ['no name', lambda { @r.chance(1, 2) ? @reg.get(@r.pick([nil, 12, []])) : @reg.include?(nil) }],
            ['alias of an unknown type', lambda { @reg.alias(n, '/nothing') }],
            ['alias of a bad name', lambda { @reg.alias(bad, known) }],
            ['alias of a known name', lambda { k = any or raise ArgumentError; k == known ? raise(ArgumentError) : @reg.alias(k, known) }],
            ['alias of no name', lambda { @reg.alias(n, nil) }],
            ['removing an unknown alias', lambda { @reg.remove_alias('/nothing') }],
            ['removing a type as an alias', lambda { @reg.remove_alias(known) }],
            ['resizing an unknown type', lambda { @reg.resize('/nothing' => 12) }],
            ['resizing to no size', lambda { @reg.resize(known => @r.pick([nil, "x", 2**70])) }],
            ['resizing to a negative size', lambda { @reg.resize(known => -@r.range(1, 9)) }],
            ['resizing nothing', lambda { @reg.resize_type(@r.pick([nil, 12]), 4) }],
            ['merging something else', lambda { @reg.merge(@r.pick([nil, 12, @reg.get(known), Object.new])) }],
            ['minimal of something else', lambda { @reg.minimal(@r.pick([nil, 12, Object.new, '/nothing', ''])) }],
            ['adding something else', lambda { @reg.add(@r.pick([nil, 12, Object.new, '/nothing'])) }],
            ['removing something else', lambda { @reg.remove(@r.pick([nil, 12, Object.new, '/nothing', Object])) }],
            ['dependencies of something else', lambda { @reg.reverse_depends(@r.pick([nil, 12, Object.new, '/nothing', Object])) }],
            ['aliases of something else', lambda { @reg.aliases_of(@r.pick([nil, 12, Object.new, '/nothing', Object])) }],
            ['loading garbage', lambda { @reg.merge_xml(@r.pick(['', '<typelib', '<x/>', '<typelib><numeric/></typelib>', "\0", '<typelib><numeric name="/q" size="x" category="sint"/></typelib>'])) }],
            ['loading no text', lambda { @reg.merge_xml(@r.pick([nil, 12])) }],
            ['importing a missing file', lambda { @reg.import('/nothing/x.tlb') }],
            ['importing an unknown kind', lambda { @reg.import('/nothing/x.zzz', @r.pick(['auto', 'nothing'])) }],
            ['exporting to an unknown kind', lambda { @reg.export(@r.pick(['nothing', nil, 12])) }],
        ]
        what, f = @r.pick(tries)
        @c.step("refused: #{what} (#{known}, #{bad.inspect})")
        GC.start if @r.chance(1, 60)
        e = raised(&f)
        @c.ck(e, "accepted:#{what}") { "#{what} was accepted" }
        @c.count('refused operations')
        @c.count("refused: #{what}")
        check(@reg, @m, 'after-refused')
    end

    # ---- comparison
    def check(reg, m, key)
        all = reg.each(with_aliases: true).to_a
        names = all.map(&:first)
        @c.ck(names.uniq.size == names.size, "#{key}-twice") { "names listed twice: #{names - names.uniq}" }
        got, expected = names.sort, m.names.sort
        @c.ck(got == expected, "#{key}-names") { "missing names #{expected - got}, unexpected names #{got - expected}" }
        all.each { |n, t| @c.ck(t.name == m.resolve(n), "#{key}-target") { "#{n} leads to #{t.name} instead of #{m.resolve(n)}" } }
        plain = reg.each.map(&:name)
        @c.ck(plain.sort == m.types.keys.sort, "#{key}-types") { "types: missing #{m.types.keys - plain}, unexpected #{plain - m.types.keys}" }
        @c.ck(reg.size == expected.size, "#{key}-size") { "size #{reg.size} with #{expected.size} names" }
        p = @r.chance(1, 2) || expected.empty? ? @r.pick(NS) : @r.pick(expected)[0, @r.range(1, 6)]
        got = reg.each(p, with_aliases: true).to_a.map(&:first)
        @c.ck(got.sort == expected.select { |n| n.start_with?(p) }, "#{key}-prefix") { "listing #{p} gives #{got}" }
        got = reg.each(p).map(&:name)
        @c.ck(got.sort == m.types.keys.select { |n| n.start_with?(p) }.sort, "#{key}-prefix-types") { "listing types of #{p} gives #{got}" }
        own = m.types.keys - @base.types.keys
        (own.size <= 6 ? own : @r.shuffle(own).first(4)).each { |n| check_type(reg, m, n, key) }
        check_type(reg, m, @r.pick(m.types.keys), key) unless m.types.empty?
    end

    def check_type(reg, m, n, key, mixed = false)
        d, t = m.types[n], reg.get(n)
        @c.ck(reg.include?(n) && t.name == n && t.registry.equal?(reg), "#{key}-type") { "#{n} reads as #{t}" }
        got = Case.describe(t)
        @c.ck(got.content == d.content, "#{key}-definition") { "#{n} is #{got.content} instead of #{d.content}" }
        @c.ck(mixed || got.meta.reject { |k, _| k == 'base_dir' }.map { |k, v| [k, v.sort] }.sort == d.meta.map { |k, v| [k, v.sort] }.sort, "#{key}-metadata") { "metadata of #{n}: #{got.meta} instead of #{d.meta}" }
        @c.ck(mixed || got.field_meta.map { |f, x| [f, x.map { |k, v| [k, v.sort] }.sort] }.sort == d.field_meta.map { |f, x| [f, x.map { |k, v| [k, v.sort] }.sort] }.sort, "#{key}-field-metadata") { "metadata of the fields of #{n}: #{got.field_meta} instead of #{d.field_meta}" }
        sub = case d.kind
              when :compound
                  d.info.each { |f, u, _| @c.ck(t[f].equal?(reg.get(u)) && t[f.to_sym].equal?(t[f]) && t.has_field?(f), "#{key}-field") { "field #{f} of #{n} is #{t[f]} instead of #{u}" } }
                  e = raised { t['nothing'] }
                  @c.ck(e && !t.has_field?('nothing'), "#{key}-no-field") { "#{n} has a field called nothing" }
                  d.info.map { |f, u, o| h = { name: f, type: min(m, u) }; h[:offset] = o; h }
              when :array, :pointer, :container
                  u = d.kind == :array ? d.info[0] : d.info.last
                  @c.ck(t.deference.equal?(reg.get(u)), "#{key}-element") { "#{n} leads to #{t.deference}" }
                  min(m, u)
              when :enum
                  d.info.each { |s, v| @c.ck(t.value_of(s) == v && t.name_of(v) == s, "#{key}-symbol") { "#{s} of #{n} is #{t.value_of(s)}" } }
                  d.info.map { |s, v| { name: s, value: v } }
              end
        h = t.to_h(layout_info: true)
        x = min(m, n)
        case d.kind
        when :compound then x[:fields] = sub
        when :array then x[:element] = sub; x[:length] = d.info[1]
        when :container then x[:element] = sub
        when :enum then h[:values] = h[:values].sort_by { |v| v[:name] }; x[:values] = sub.sort_by { |v| v[:name] }
        when :numeric then x[:integer] = d.info != :float; x[:unsigned] = d.info == :uint if x[:integer]
        end
        @c.ck(h == x, "#{key}-to_h") { "#{n}.to_h is #{h} instead of #{x}" }
        @c.ck(t.null? == (d.kind == :null) && t.opaque? == (d.kind == :opaque), "#{key}-kind") { "#{n}: null? #{t.null?} opaque? #{t.opaque?}" }
        return if mixed
        got = reg.aliases_of(t).sort
        @c.ck(key == 'xml' || got == m.aliases_of(n).sort, "#{key}-aliases") { "aliases of #{n}: #{got} instead of #{m.aliases_of(n)}" }
        got = t.direct_dependencies.map(&:name).sort
        @c.ck(got == d.deps.sort, "#{key}-direct") { "direct dependencies of #{n}: #{got} instead of #{d.deps}" }
        all = m.closure(n)[1..-1].sort
        got = t.recursive_dependencies.map(&:name).sort
        @c.ck(got == all, "#{key}-recursive") { "dependencies of #{n}: #{got} instead of #{all}" }
        if @r.chance(1, 3)
            got = reg.reverse_depends(t).map(&:name).sort
            @c.ck(key == 'xml' || got == m.dependents(n).sort, "#{key}-dependents") { "what depends on #{n}: #{got} instead of #{m.dependents(n)}" }
            o = @r.pick(m.types.keys)
            if reg.include?(o)
                @c.ck(t.contains?(reg.get(o)) == (all.include?(o) || o == n), "#{key}-contains") { "#{n} contains #{o}: #{t.contains?(reg.get(o))}" }
                @c.ck((t == reg.get(o)) == m.same?(n, m, o), "#{key}-equality") { "#{n} == #{o} is #{t == reg.get(o)}" } unless d.kind == :null
                @c.ck(t.eql?(reg.get(o)) == (o == n), "#{key}-eql") { "#{n}.eql?(#{o}) is #{t.eql?(reg.get(o))}" }
            end
            if n !~ /[<\[\*]/
                parts = n.split('/')[1..-1]
                @c.ck(t.basename == parts.last && t.namespace == (parts.size == 1 ? '/' : "/#{parts[0..-2].join('/')}/") && t.split_typename == parts && t.full_name('::') == "::#{parts.join('::')}" &&
                      t.full_name('::', true) == parts.join('::'), "#{key}-name") { "parts of #{n}: #{t.namespace} #{t.basename} #{t.split_typename} #{t.full_name('::')}" }
            end
            @c.ck(PP.pp(t, '').include?(n), "#{key}-pretty") { "pretty printing #{n} gives #{PP.pp(t, '')}" }
            @c.ck(reg.source_id_of(t).nil?, "#{key}-source") { "source of #{n} is #{reg.source_id_of(t)}" } unless @base.types.key?(n)
        end
    end
    CLASSES = { numeric: 'Typelib::NumericType', enum: 'Typelib::EnumType', compound: 'Typelib::CompoundType', array: 'Typelib::ArrayType', pointer: 'Typelib::PointerType',
                container: 'Typelib::ContainerType', opaque: 'Typelib::OpaqueType', null: 'Typelib::NullType' }
    def min(m, n); { name: n, class: CLASSES[m.types[n].kind], size: m.types[n].size } end

    def rand_changes(n)
        n.times do
            case @r.below(20)
            when 0..8 then create
            when 9..10 then make_alias
            when 11 then remove
            when 12 then aliases
            when 13..14 then metadata
            when 15 then resize
            else refused
            end
            check(@reg, @m, 'step')
        end
    end

    def run
        @klass, @base = @@bases[@r.chance(1, 3) ? 1 : 0]
        @reg, @m = @klass.new, @base.dup
        @overlap = @r.chance(1, 4)
        @c.desc("new #{@klass}")
        create
        metadata
        @changed = false
        @r.range(2, @c.thorough ? 8 : 5).times do
            rand_changes(@r.range(1, 6))
            extract
        end
        GC.start if @r.chance(1, 30)
        check(@reg, @m, 'end')
        own = @m.types.keys - @base.types.keys
        if own.size >= 6 && @changed
            @c.sig(own.sort.map { |n| [n, @m.types[n].content] }.inspect)
            @c.sample("#{own.size} types: #{own.join(' ')}; aliases #{@m.aliases.keys - @base.aliases.keys}")
        end
    end
end
Core.main(RULE, Case)
