require_relative 'shapes'
RULE = "each case builds registries, types and values, takes fields, elements, pointers, enumerators, copies, metadata and derived registries out of them, removes types, and forgets " \
       "random ones of all these while the garbage is collected, fully or not; what is left is used and compared with a model after every step, some cases being ended by an ordinary exit of the " \
       "interpreter; in others, hundreds of values are forgotten but for some part of them, and their memory must be released with the last part. Non-trivial: at least five objects used after another one they came from was forgotten and collected; distinct by the sequence of operations."

class Case
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # what is known of a registry, without keeping it alive
    Known = Struct.new(:removed, :id)
    Entry = Struct.new(:kind, :object, :known, :shape, :model, :sources)

    def add(kind, object, known = nil, shape = nil, model = nil, from: nil)
        e = Entry.new(kind, object, known, shape && (shape.type ? shape.detached : shape), model, from ? from.sources + [from.object_id] : [])
        @pool << e
        e
    end
    def any(*kinds)
        @r.pick(@pool.select { |e| kinds.include?(e.kind) })
    end

    def new_registry
        r = @r.chance(3, 4) ? Typelib::CXXRegistry.new : Typelib::Registry.new.tap { |x| Typelib::Registry.add_standard_cxx_types(x) }
        add(:registry, r, Known.new({}, @known_id = (@known_id || 0) + 1))
    end
    def new_value
        e = any(:registry) || new_registry
        return if e.known.removed.size > 0 # building blocks may be missing
        sh = Shapes.new(e.object, @r)
        sh.instance_variable_set(:@n, @names = (@names || 0) + 50)
        s = sh.random(@r.range(1, 2))
        m = sh.value(s)
        v = s.type.new(sh.given(s, m))
        add(:value, v, e.known, s, m, from: e)
    end
    def child
        e = any(:value) or return
        s, m, v = e.shape, e.model, e.object
        case s.kind
        when :struct
            f = @r.pick(s.fields.keys)
            add(:value, v.raw_get(f), e.known, s.fields[f], m[f], from: e)
        when :array, :vector
            return if m.empty?
            i = @r.below(m.size)
            x = @r.chance(1, 3) ? v.raw_each.to_a[i] : v.raw_get(i)
            add(:value, x, e.known, s.elem, m[i], from: e)
        end
    end
    def pointer
        e = any(:value) or return
        return if e.known.removed[e.shape.name]
        add(:pointer, e.object.to_ptr, e.known, e.shape, e.model, from: e)
    end
    def deference
        e = any(:pointer) or return
        x = e.object.deference
        x = Typelib.to_ruby(x) if x.kind_of?(Typelib::Type) && e.shape.kind == :struct && @r.chance(1, 2)
        add(:value, x, e.known, e.shape, e.model, from: e) if x.kind_of?(Typelib::Type)
    end
    def enumerator
        e = any(:value) or return
        return unless [:array, :vector].include?(e.shape.kind)
        add(:enumerator, e.object.raw_each, e.known, e.shape.elem, e.model.dup, from: e)
    end
    def advance
        e = any(:enumerator) or return
        return if e.model.empty?
        x = e.object.next
        d = Shapes.raw_differs(x, e.shape, e.model[0])
        @c.ck(!d, 'enumerator') { "an enumerator returned a wrong element: #{d}" }
        add(:value, x, e.known, e.shape, e.model[0], from: e) if @r.chance(1, 2)
        e.model.shift
    end
    def copy
        e = any(:value) or return
        return if e.known.removed[e.shape.name]
        case @r.below(4)
        when 3
            return if e.shape.containers?
            # a view of a string which is long enough to have memory of its own
            string = e.object.to_byte_array(remove_trailing_skips: false) + 'x' * 3000
            add(:value, e.object.class.from_memory_zone(string.to_memory_ptr), e.known, e.shape, e.model, from: e)
            @c.count('views of strings')
        when 0 then add(:value, e.object.dup, e.known, e.shape, e.model, from: e)
        when 1
            t = e.object.class
            add(:value, t.wrap(e.object.to_byte_array), e.known, e.shape, e.model, from: e)
        else
            x = e.object.class.new
            Typelib.copy(x, e.object)
            add(:value, x, e.known, e.shape, e.model, from: e)
        end
    end
    def type
        e = any(:value) or return
        add(:type, e.object.class, e.known, e.shape, nil, from: e)
    end
    def metadata
        e = any(:type) or return
        t = e.object
        m = if e.shape.kind == :struct && @r.chance(1, 2) then t.field_metadata[@r.pick(e.shape.fields.keys)]
            else t.metadata
            end
        k, v = "key#{@meta = (@meta || 0) + 1}", @r.bytes(5).unpack1('H*')
        m.add(k, v)
        add(:metadata, m, e.known, nil, [k, v], from: e)
    end
    def derived_registry
        e = any(:type) or return
        return if e.known.removed.size > 0
        reg = case @r.below(3)
              when 0 then e.object.minimal_registry
              when 1 then Typelib::Registry.from_xml(e.object.registry.to_xml)
              else x = Typelib::Registry.new; x.merge(e.object.registry); x
              end
        t = reg.build(e.shape.name)
        add(:type, t, Known.new({}, @known_id += 1), e.shape, nil, from: e)
    end
    # the value of one registry copied to the type of another
    def cast
        e, f = any(:value), any(:type)
        return unless e && f
        f = @pool.find { |x| x.kind == :type && x.shape.name == e.shape.name && x.known != e.known } || f
        return if f.shape.name != e.shape.name || f.known.removed.size > 0 || e.known.removed.size > 0
        x = f.object.new
        Typelib.copy(x, e.object)
        add(:value, x, f.known, e.shape, e.model, from: f)
    end
    def remove
        e = any(:type) or return
        return if !e.known.removed.empty?
        return unless @r.chance(1, 3)
        @c.step("removing #{e.shape.name}")
        gone = e.object.registry.remove(e.object)
        gone.each { |t| e.known.removed[t.name] = true }
        @c.ck(e.known.removed[e.shape.name], 'removed', "remove did not return the removed type #{e.shape.name}")
        gone.each { |t| add(:removed, t, e.known, nil, t.name.dup, from: e) if @r.chance(1, 3) }
    end
    def forget
        n = @r.range(1, 1 + @pool.size / 2)
        n.times do
            e = @pool.delete_at(@r.below(@pool.size)) or break
            @gone[e.object_id] = true
        end
    end
    def garbage
        Array.new(@r.range(1, 300)) { Object.new }
        Array.new(@r.range(1, 20)) { "x" * @r.range(30, 300) }
        case @r.below(4)
        when 0 then GC.start
        when 1 then GC.start(full_mark: true, immediate_sweep: false)
        when 2 then GC.start(full_mark: false, immediate_sweep: @r.chance(1, 2))
        else GC.start; Array.new(2000) { Object.new }
        end
        @c.count('collections')
    end

    def use(e)
        case e.kind
        when :value
            d = Shapes.raw_differs(e.object, e.shape, e.model)
            @c.ck(!d, 'value') { "a value that came from #{e.sources.size} others: #{d}" }
            if e.known.removed.empty? && @r.chance(1, 4)
                x = Typelib.to_ruby(e.object)
                @c.ck(!x.nil?, 'to-ruby', 'to_ruby returned nil')
            end
        when :pointer
            x = e.object.deference
            d = x.kind_of?(Typelib::Type) ? Shapes.raw_differs(x, e.shape, e.model) : Shapes.same_scalar?(e.shape, e.model, x) ? nil : x.inspect
            @c.ck(!d, 'pointer') { "what a pointer points to: #{d}" }
        when :type, :removed
            t = e.object
            @c.ck(t.name == (e.shape ? e.shape.name : e.model), 'type-name') { "a type is called #{t.name} instead of #{e.shape ? e.shape.name : e.model}" }
            if e.shape && !e.known.removed[e.shape.name]
                @c.ck(t.registry.get(e.shape.name) == t, 'type-registry') { "the registry of #{t.name} has another type of that name" }
                @c.ck(t.size == e.shape.size, 'type-size') { "#{t.name} has size #{t.size} instead of #{e.shape.size}" }
                t.new if @r.chance(1, 3)
            else
                @c.ck(!t.registry.include?(t.name), 'removed-type') { "a removed type is still in its registry" }
                t.size
                raised { t.new } if @r.chance(1, 3) # values of removed types may be refused
            end
            t.inspect
        when :metadata
            k, v = e.model
            @c.ck(e.object.get(k) == [v] && e.object.keys.include?(k), 'metadata') { "the metadata #{k} is #{e.object.get(k).inspect} instead of #{v}" }
        when :registry
            @c.ck(e.object.size > 0 && e.object.each.to_a.size > 0, 'registry', 'a registry is empty')
        end
        @used_after += 1 if e.sources.any? { |x| @gone[x] }
        @c.count("#{e.kind} used")
    end

    OPS = [[:new_registry, 1], [:new_value, 5], [:child, 8], [:pointer, 2], [:deference, 2], [:enumerator, 2], [:advance, 2], [:copy, 3], [:type, 3], [:metadata, 3],
           [:derived_registry, 2], [:cast, 3], [:remove, 2], [:forget, 4], [:garbage, 4]].flat_map { |o, n| [o] * n }
    def work
        @pool, @gone, @used_after = [], {}, 0
        new_value until @pool.size > 1
        done = []
        @r.range(15, @c.thorough ? 60 : 35).times do
            op = @r.pick(OPS)
            @c.step(op.to_s)
            done << op
            if op != :garbage && @r.chance(1, [:child, :pointer, :deference, :enumerator, :advance, :type, :metadata].include?(op) ? 60 : 500)
                @c.step('(collecting all the time)')
                begin
                    GC.stress = true
                    send(op)
                ensure
                    GC.stress = false
                end
                @c.count('operations under stress')
            else
                send(op)
            end
            break if @pool.empty?
            use(@r.pick(@pool))
        end
        @c.step('the end')
        garbage
        @pool.each { |e| use(e) }
        if @used_after >= 5
            @c.sig(done.join(' '))
            @c.count('objects used after what they came from', @used_after)
        end
        @c.sample(done.join(' '))
    end
    # an ordinary exit, which frees everything in any order
    def exiting
        @c.count('ordinary exits')
        pid = fork do
            begin
                work
            rescue CaseFailed
                exit! 3
            end
            $kept = @pool
            exit 0
        end
        Process.wait(pid)
        @c.ck($?.success?, 'exit') { "an interpreter that had such objects ended with #{$?}" }
    end

    # Many values whose parts outlive them: once nothing refers to them anymore, their memory must be released
    MANY = 300
    def parts_of_many(kind)
        reg = Typelib::CXXRegistry.new
        sh = Shapes.new(reg, @r)
        s = sh.random(2)
        s = sh.random(2) until s.kind == :struct
        f = s.fields.keys.first
        # one at a time, so that the stack keeps few of them
        Array.new(MANY) do |i|
            v = s.type.new
            case kind
            when :part then v.raw_get(f)
            when :all_parts then s.fields.keys.map { |k| v.raw_get(k) }
            when :pointer then v.to_ptr
            when :pointed then v.to_ptr.deference
            when :copy then v.dup
            when :cast then Typelib.copy(s.type.new, v)
            when :wrapped then s.type.wrap(v.to_byte_array)
            when :enumerated then v.each_field.to_a
            when :ruby then Typelib.to_ruby(v)
            when :zone then v.to_memory_ptr
            when :container
                c = (@container ||= reg.create_container('/std/vector', s.type)).new
                c << v << v
                i.odd? ? c.raw_get(0) : c.raw_each
            end
        end
    end
    def releasing
        kind = @r.pick([:part, :part, :all_parts, :pointer, :pointed, :copy, :cast, :wrapped, :enumerated, :ruby, :zone, :container])
        @c.step("#{MANY} values of which only this remains: #{kind}")
        3.times { GC.start }
        before = Typelib::MemoryZone.table_size
        held = parts_of_many(kind)
        GC.start
        held.each(&:to_s) if @r.chance(1, 4)
        @c.count("released: #{kind}", MANY)
        held.clear
        left = nil
        6.times do
            Array.new(500) { Object.new }
            GC.start
            left = Typelib::MemoryZone.table_size - before
            break if left < MANY / 4
        end
        @c.ck(left < MANY / 2, 'released') { "#{left} memory zones are left of #{MANY} values nothing refers to anymore (#{kind})" }
        @c.sig("released #{kind} #{left / 20}")
    end

    def run
        if @r.chance(1, 40) then exiting
        elsif @r.chance(1, 25) then releasing
        else work
        end
        @pool = nil
        if @c.idx % 25 == 24
            2.times { GC.start }
            n = Typelib::MemoryZone.table_size
            @c.ck(n < 2000, 'leak') { "#{n} memory zones are left" }
            @c.count('memory zones left', n)
        end
    end
end
Core.main(RULE, Case)
