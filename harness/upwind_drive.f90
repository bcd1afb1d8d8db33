! Drives the solver type of an upwind program directly: any dimension, unequal extents, any velocity.
! Arguments: nd n1.. v1.. l1.. dt save steps...    (one advect per step of each entry of steps)
program drive
    use upwind_mod, only: upwind_type, upwind_new, upwind_advect, upwind_saveVTK, upwind_del, r8
    implicit none
    type(upwind_type) :: up
    integer, allocatable :: n(:)
    real(r8), allocatable :: v(:), l(:)
    real(r8) :: dt
    integer :: nd, k, q, i, save
    nd = nint(arg(1))
    allocate(n(nd), v(nd), l(nd))
    do i = 1, nd
        n(i) = nint(arg(1 + i))
        v(i) = arg(1 + nd + i)
        l(i) = arg(1 + 2*nd + i)
    enddo
    dt = arg(2 + 3*nd)
    save = nint(arg(3 + 3*nd))
    call upwind_new(up, v, l, n)
    do k = 4 + 3*nd, command_argument_count()
        do q = 1, nint(arg(k))
            call upwind_advect(up, dt)
        enddo
        write(*, '(a)') 'PRINT'
        do i = 1, size(up%f)
            write(*, '(i0, es26.17e3)') i - 1, up%f(i)
        enddo
        write(*, '(a, es26.17e3)') 'CHECKSUM ', sum(up%f)
        write(*, '(a)') 'STD none'
    enddo
    if (save == 1) call upwind_saveVTK(up, 'class.vtk')
    call upwind_del(up)
contains
    real(r8) function arg(q)
        integer, intent(in) :: q
        character(len=40) :: s
        call get_command_argument(q, s)
        read(s, *) arg
    end function
end program
